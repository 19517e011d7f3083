"""C++ names and types: demangled-name splitting, type parsing, record layouts."""
import re
import functools


def _angle_aware(s, i):
    """return (kind, endpos) for token at i handling 'operator<' forms"""


OPS = ["operator<<=", "operator>>=", "operator<=>", "operator->*", "operator<<", "operator>>", "operator<=", "operator>=",
       "operator->", "operator()", "operator[]", "operator<", "operator>"]


def _scan(s):
    """yield (index, char, depth) skipping operator tokens; depth counts <>,(),[],{}"""
    i = 0
    d = 0
    n = len(s)
    while i < n:
        if s.startswith("operator", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            for o in OPS:
                if s.startswith(o, i):
                    # 'operator<' followed by template args 'operator<<int>' ambiguity:
                    L = len(o)
                    if o == "operator<<" and re.match(r"operator<<[\w:]", s[i:]) and not s.startswith("operator<< <", i):
                        # demangler prints 'operator<< <int>' for << templates
                        L = len("operator<")
                    if o == "operator>>" :
                        pass
                    for k in range(i, i + L):
                        yield k, s[k], d, True
                    i += L
                    break
            else:
                for k in range(i, i + 8):
                    yield k, s[k], d, True
                i += 8
            continue
        c = s[i]
        if c in ">)]}" and not (c == ">" and i > 0 and s[i - 1] == "-"):
            d -= 1
        yield i, c, d, False
        if c in "<([{":
            d += 1
        i += 1


def split_top(s, sep):
    out = []
    last = 0
    for i, c, d, op in _scan(s):
        if op or d != 0:
            continue
        if s.startswith(sep, i) and i >= last:
            out.append(s[last:i])
            last = i + len(sep)
    out.append(s[last:])
    return out


@functools.lru_cache(None)
def parse_fn(dem):
    """demangled -> (key, comps, params) ; key is template-stripped qualified name,
    comps = [(name, targs or None)], params = list of param strings or None"""
    s = dem
    # find the parameter list: last top-level '(' ... ')' group, ignoring trailing qualifiers
    pos = None
    for i, c, d, op in _scan(s):
        if not op and c == "(" and d == 0:
            # anonymous namespace / lambda pieces contain parens as well; take last top-level group
            pos = i
    params = None
    name = s
    if pos is not None:
        # match close
        depth = 0
        end = None
        for i, c, d, op in _scan(s):
            if i < pos or op:
                continue
            if c == "(" and d == 0 and i == pos:
                continue
            if c == ")" and d == 0:
                end = i
                break
        tail = s[end + 1:].strip() if end else ""
        tail = re.sub(r"^(const|&&|&|volatile|noexcept|\s)+", "", tail)
        tail = re.sub(r"\[clone[^\]]*\]|\(\.\w+\)", "", tail).strip()
        if tail == "":
            name = s[:pos]
            ps = s[pos + 1:end].strip()
            params = split_top(ps, ", ") if ps else []
        tail2 = tail
    # strip return type: last top-level space before the qualified name (not inside operator conv)
    cut = 0
    for i, c, d, op in _scan(name):
        if not op and c == " " and d == 0:
            # 'operator bool' / 'operator double const*' conversions
            before = name[:i]
            if re.search(r"operator$", before):
                break
            if re.search(r"operator(new|delete)?$", before):
                break
            if re.search(r"operator<<?$|operator<$", before):
                continue
            cut = i + 1
    name = name[cut:]
    comps = []
    for c in split_top(name, "::"):
        # split template args
        m = None
        base = c
        targs = None
        for i, ch, d, op in _scan(c):
            if not op and ch == "<" and d == 0:
                base = c[:i].rstrip()
                inner = c[i + 1:]
                # to matching close
                k = c.rindex(">")
                targs = split_top(c[i + 1:k].strip(), ", ")
                break
        comps.append((base, targs))
    key = "::".join(b for b, _ in comps)
    return key, comps, params


# ------------------------------------------------------------------ types
class CT:
    """C++ type.  k: 'int'(bits,signed) 'double' 'bool' 'ptr' 'named'(name,args)"""
    __slots__ = ("k", "name", "args", "bits", "signed", "tgt", "_s")

    def __init__(self, k, name=None, args=None, bits=0, signed=True, tgt=None):
        self.k, self.name, self.args, self.bits, self.signed, self.tgt = k, name, args, bits, signed, tgt
        self._s = None

    def __str__(self):
        if self._s is None:
            if self.k == "int":
                self._s = ("" if self.signed else "u") + "int%d" % self.bits
            elif self.k == "named":
                self._s = self.name + ("<" + ",".join(map(str, self.args)) + ">" if self.args is not None else "")
            elif self.k == "ptr":
                self._s = str(self.tgt) + "*"
            elif self.k in ("const", "other"):
                self._s = self.name
            else:
                self._s = self.k
        return self._s

    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, CT) and str(self) == str(o)

    def __hash__(self):
        return hash(str(self))


# sugar that clang prints in record layouts
ALIAS = {"ParameterValue": "double", "ParameterKey": "std::string", "ParameterPrior": "albatross::PriorContainer",
         "ParameterStore": "std::map<std::string, albatross::Parameter>", "Index": "long", "Eigen::Index": "long",
         "type_index_t": "unsigned int", "MatrixXd": "Eigen::Matrix<double, -1, -1>", "VectorXd": "Eigen::Matrix<double, -1, 1>",
         "Eigen::MatrixXd": "Eigen::Matrix<double, -1, -1>", "Eigen::VectorXd": "Eigen::Matrix<double, -1, 1>",
         "std::size_t": "unsigned long", "size_t": "unsigned long"}
INTS = {"int": (32, True), "unsigned int": (32, False), "unsigned": (32, False), "long": (64, True),
        "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
        "short": (16, True), "unsigned short": (16, False), "char": (8, True), "unsigned char": (8, False),
        "signed char": (8, True)}


@functools.lru_cache(None)
def parse_type(s):
    s = s.strip()
    s0 = s
    for kw in ("struct ", "class ", "union ", "enum "):
        if s.startswith(kw):
            s = s[len(kw):]
    changed = True
    isptr = False
    while changed:
        changed = False
        for suf in (" const", " volatile"):
            if s.endswith(suf):
                s = s[:-len(suf)]
                changed = True
        for pre in ("const ", "volatile "):
            if s.startswith(pre):
                s = s[len(pre):]
                changed = True
        if s.endswith("&&"):
            s = s[:-2].strip(); changed = True
        elif s.endswith("&"):
            s = s[:-1].strip(); changed = True
        elif s.endswith("*"):
            return CT("ptr", tgt=parse_type(s[:-1]))
        for kw in ("struct ", "class ", "union ", "enum "):
            if s.startswith(kw):
                s = s[len(kw):]
                changed = True
    if s in ALIAS:
        return parse_type(ALIAS[s])
    if s in INTS:
        b, sg = INTS[s]
        return CT("int", bits=b, signed=sg)
    if s in ("size_t", "std::size_t"):
        return CT("int", bits=64, signed=False)
    if s in ("double",):
        return CT("double")
    if s in ("bool", "_Bool"):
        return CT("bool")
    if s in ("void", "float", "long double"):
        return CT(s)
    if s.endswith(")") or s.endswith("]"):
        return CT("other", name=s)
    # named
    comps = split_top(s, "::")
    last = comps[-1]
    i = last.find("<")
    if i >= 0 and last.endswith(">") and "lambda" not in last[:i]:
        base = "::".join(comps[:-1] + [last[:i]])
        args = []
        for a in split_top(last[i + 1:-1].strip(), ", "):
            args.append(parse_targ(a))
        return canon(CT("named", name=base, args=args))
    if last in ("string", "basic_string"):
        return CT("named", name="std::string")
    return canon(CT("named", name=s))


def parse_targ(a):
    a = a.strip()
    if re.fullmatch(r"-?\d+[ul]*", a):
        return CT("const", name=re.sub(r"[ul]+$", "", a))
    if a in ("true", "false"):
        return CT("const", name=a)
    if a == "":
        return CT("pack")
    return parse_type(a)


def canon(t):
    n = t.name
    n = n.replace("std::__cxx11::", "std::").replace("std::__1::", "std::")
    n = {"Eigen::MatrixXd": "MatrixXd", "Eigen::VectorXd": "VectorXd", "MatrixXd": "MatrixXd"}.get(n, n)
    a = t.args
    if n == "std::basic_string":
        return CT("named", name="std::string")
    if n in ("std::vector", "std::set", "std::multiset", "std::deque", "std::list") and a:
        a = a[:1]
    if n in ("std::map", "std::multimap", "std::unordered_map") and a:
        a = a[:2]
    if n in ("std::unordered_set",) and a:
        a = a[:1]
    if n == "Eigen::Matrix" and a:
        a = a[:3]
    return CT("named", name=n, args=a)


class Layouts:
    """clang -fdump-record-layouts-simple text -> {type string: (size, [(off, member type string)])}"""

    def __init__(self, text):
        self.rec = {}
        for m in re.finditer(r"\*\*\* Dumping AST Record Layout\n(.*?)\n\s*\| \[sizeof=(\d+)", text, re.S):
            lines = m.group(1).split("\n")
            head = None
            stack = []
            leaves = []
            entries = []
            for l in lines:
                mm = re.match(r"\s*(\d+)?(?::[\d-]+)?\s*\|(\s+)(.*)$", l)
                if not mm:
                    continue
                off, ind, rest = mm.groups()
                entries.append((int(off) if off else 0, (len(ind) - 1) // 2, rest))
            if not entries:
                continue
            head = entries[0][2]
            h = re.sub(r" \(empty\)$", "", head)
            members = [(o, r) for (o, d, r) in entries[1:] if d == 1]
            self.rec.setdefault(str(parse_type(h)), (int(m.group(2)), members, " (empty)" in head))

    def members(self, t):
        """[(off, CT, name)] direct members and bases"""
        r = self.rec.get(str(t))
        if r is None:
            if t.k == "named" and t.name == "std::pair" and len(t.args) == 2:
                s1, s2 = self.prim(t.args[0]), self.prim(t.args[1])
                if s1 is not None and s2 is not None:
                    al = min(8, s2 if t.args[1].k != "named" else 8)
                    return [(0, t.args[0], "first"), ((s1 + al - 1) // al * al, t.args[1], "second")]
            return None
        out = []
        for off, txt in r[1]:
            empty = txt.endswith(" (empty)")
            txt = re.sub(r" \(empty\)$", "", txt)
            if empty:
                continue
            if "vtable pointer" in txt or "vftable" in txt:
                out.append((off, CT("vptr"), "__vptr"))
                continue
            if re.search(r" \((primary |virtual )*base\)$", txt):
                ty = re.sub(r" \((primary |virtual )*base\)$", "", txt)
                out.append((off, parse_type(ty), None))
                continue
            # "type name"
            parts = split_top(txt, " ")
            out.append((off, parse_type(" ".join(parts[:-1])), parts[-1]))
        return out

    def prim(self, t):
        if t.k == "int":
            return t.bits // 8
        if t.k in ("double", "ptr"):
            return 8
        if t.k == "bool":
            return 1
        if t.k == "named":
            s = self.size(t)
            if s is not None:
                return s
            return {"std::string": 32, "std::vector": 24, "std::map": 48, "std::set": 48}.get(t.name)
        return None

    def size(self, t):
        r = self.rec.get(str(t))
        if r is None:
            if t.k == "named" and t.name == "std::pair":
                m = self.members(t)
                if m:
                    s2 = self.prim(m[1][1])
                    e = m[1][0] + s2
                    al = 8 if max(self.prim(m[0][1]), s2) >= 8 else 4
                    return (e + al - 1) // al * al
            return None
        return r[0]
