"""Forward symbolic execution of clang -O0 IR producing named proof obligations.

Calls to functions with a contract are replaced by the contract (caller checked
against contract); every other defined function is executed from its IR.  Loops are
either completely unrolled (when every exit decision is determined) or cut with
inductive invariants found by Houdini over candidate sets.
"""
import re
import time
import z3
import ir
import cxx
from trees import *
import smt

import sys
sys.setrecursionlimit(20000)


class Stop(Exception):
    pass


class State:
    __slots__ = ("mem", "own", "regs", "facts", "fset", "zero", "trace", "depth")

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.regs = {}
        self.facts = []
        self.fset = set()
        self.zero = {}
        self.trace = ()
        self.depth = 0

    def fork(self):
        n = State.__new__(State)
        n.mem = dict(self.mem)
        self.own = set()
        n.own = set()
        n.regs = dict(self.regs)
        n.facts = list(self.facts)
        n.fset = set(self.fset)
        n.zero = dict(self.zero)
        n.trace = self.trace
        n.depth = self.depth
        return n

    def assume(self, f):
        if z3.is_true(f):
            return
        k = f.get_id()
        if k not in self.fset:
            self.fset.add(k)
            self.facts.append(f)

    def cells(self, obj):
        return self.mem[obj]

    def put(self, obj, off, v):
        d = self.mem[obj]
        if obj not in self.own:
            d = dict(d)
            self.mem[obj] = d
            self.own.add(obj)
        d[off] = v

    def drop(self, obj, lo, hi):
        d = self.mem[obj]
        ks = [k for k in d if lo <= k < hi]
        if ks:
            if obj not in self.own:
                d = dict(d)
                self.mem[obj] = d
                self.own.add(obj)
            for k in ks:
                del d[k]


class Obligation:
    __slots__ = ("name", "hyps", "goal", "where", "status", "detail", "model", "kind")

    def __init__(self, name, hyps, goal, where, kind="post"):
        self.name, self.hyps, self.goal, self.where, self.kind = name, hyps, goal, where, kind
        self.status = None
        self.detail = ""
        self.model = None


CONTRACTS = {}


def contract(*keys):
    def deco(f):
        for k in keys:
            CONTRACTS[k] = f
        return f
    return deco


class Call:
    """what a contract sees"""

    def __init__(self, ex, st, name, dem, rt, args, argtys, attrs):
        self.ex, self.st, self.name, self.dem, self.rt, self.argtys = ex, st, name, dem, rt, argtys
        self.key, self.comps, self.params = cxx.parse_fn(dem)
        self.sret = None
        self.attrs = attrs
        if attrs and "sret" in attrs[0]:
            self.sret = args[0]
            args = args[1:]
            self.argtys = argtys[1:]
        self.args = args

    def cls(self, back=2):
        """CT of the class a method belongs to"""
        return class_type(self.comps)

    def ret(self, v=None, st=None):
        st = st or self.st
        if self.sret is not None:
            st_store_value(self.ex, st, self.sret, v)
            return [(st, None)]
        return [(st, v)]


def class_type(comps):
    t = []
    for b, a in comps[:-1]:
        t.append(b + ("<" + ", ".join(a) + ">" if a is not None else ""))
    return cxx.parse_type("::".join(t))


def st_store_value(ex, st, p, v):
    if isinstance(v, Agg):
        for o, x in v.d.items():
            ex.write(st, p.add(o), x)
    elif isinstance(v, Struct):
        for o, x in v.d.items():
            ex.write(st, p.add(o), x)
    else:
        ex.write(st, p, v)


class Abort(Exception):
    """used to abandon a speculative unrolling"""


MAXPATHS = 600


FRESH = {}       # unknown values of library types: type name -> handler (filled by the contract modules)


class Engine:
    def __init__(self, mod, layouts, opts=None):
        self.mod, self.lay = mod, layouts
        self.feas = smt.Feas()
        self.obls = []
        self.opts = opts or {}
        self.contracts = dict(CONTRACTS)
        self.templates = []          # fn(LoopCtx) -> [(name, fn(st)->Bool)]
        self.nobj = 0
        self.used_contracts = {}
        self.inlined = set()
        self.externals = {}
        self.trusted = set()
        self.globals = {}
        self.objty = {}             # declared type of argument objects
        self.cut = []                # info on cut loops
        self.log = []
        self.deadline = None
        self.concrete_only = 0
        self.fnstack = []
        self.allow_throw = False
        self.throws = []
        self.dropped = []
        self.spec_depth = 0
        self.discovering = 0
        self.starved = 0          # candidate invariants given up for lack of solver resources, not refuted

    # -------------------------------------------------------------- objects
    def new_obj(self, st, tag="o"):
        self.nobj += 1
        o = "%s%d" % (tag, self.nobj)
        st.mem[o] = {}
        st.own.add(o)
        return o

    # -------------------------------------------------------------- symbolic values by C++ type
    def fresh(self, st, ty, tag, ks=()):
        """fresh node for C++ type ty lifted over index sorts ks"""
        if isinstance(ty, str):
            ty = cxx.parse_type(ty)
        k = ty.k
        if k == "int":
            l = Leaf("i%d" % ty.bits, z3.Const(fresh_name(tag), lift(ks, INT)), ks)
            if not ks and st is not None:
                st.assume(in_range(l.e, ty.bits))
                if not ty.signed and ty.bits < 64:
                    pass
            return l
        if k == "double":
            return Leaf("f64", z3.Const(fresh_name(tag), lift(ks, REAL)), ks)
        if k == "bool":
            return Leaf("bool", z3.Const(fresh_name(tag), lift(ks, BOOL)), ks)
        if k == "named":
            n, a = ty.name, ty.args
            if n == "std::vector":
                ln = Leaf("i64", z3.Const(fresh_name(tag + ".len"), lift(ks, INT)), ks)
                if not ks and st is not None:
                    st.assume(z3.And(ln.e >= 0, ln.e <= MAXLEN))
                return Vec(ln, self.fresh(None, a[0], tag, ks + (INT,)), ty)
            if n in ("std::map", "std::set"):
                kl = self.fresh(None, a[0], tag + ".k")
                if not isinstance(kl, Leaf):
                    raise Unsupported("map key type " + str(a[0]))
                S = kl.e.sort()
                dom = Leaf("dom", z3.Const(fresh_name(tag + ".dom"), lift(ks, z3.ArraySort(S, BOOL))), ks)
                if not ks and st is not None:
                    st.assume(smt.ordfns(S)[2](dom.e) >= 0)
                    st.assume(smt.ordfns(S)[2](dom.e) <= MAXLEN)
                if n == "std::set":
                    return Dict(dom, None, kl.kind, 0, ty)
                voff = self.pair_voff(a[0], a[1])
                return Dict(dom, self.fresh(None, a[1], tag + ".val", ks + (S,)), kl.kind, voff, ty)
            if n == "std::string":
                return Leaf("str", z3.Const(fresh_name(tag), lift(ks, REAL)), ks)
            if n == "Eigen::Matrix" or n == "Eigen::Array":
                if str(a[0]) != "double":
                    raise Unsupported("matrix of " + str(a[0]))
                m = z3.Const(fresh_name(tag), lift(ks, MAT))
                if not ks and st is not None:
                    self.mat_facts(st, m, ty)
                return Leaf("mat", m, ks)
            if n == "Eigen::DiagonalMatrix":
                m = z3.Const(fresh_name(tag), lift(ks, MAT))
                if not ks and st is not None:
                    self.mat_facts(st, m, None)
                    st.assume(smt.cols(m) == 1)
                return Leaf("mat", m, ks)
            if n == "mapbox::util::variant":
                return self.fresh_variant(st, ty, tag, ks)
            h = self.opts.get("fresh", {}).get(str(ty)) or self.opts.get("fresh", {}).get(n) or FRESH.get(n)
            if h:
                return h(self, st, ty, tag, ks)
            mem = self.lay.members(ty)
            if mem is None:
                raise Unsupported("no layout for type " + str(ty))
            d = {}
            for off, mt, nm in mem:
                if mt.k == "vptr":
                    continue
                try:
                    sub = self.fresh(st, mt, tag + "." + (nm or "b"), ks)
                except Unsupported:
                    if ks:
                        raise
                    continue
                if isinstance(sub, Struct):
                    for o, x in sub.d.items():
                        d[off + o] = x
                else:
                    d[off] = sub
            return Struct(d, ty)
        raise Unsupported("fresh value of type " + str(ty))

    def mat_facts(self, st, m, ty):
        st.assume(smt.rows(m) >= 0)
        st.assume(smt.cols(m) >= 0)
        st.assume(smt.rows(m) <= MAXLEN)
        st.assume(smt.cols(m) <= MAXLEN)
        if ty is not None and ty.args and len(ty.args) > 2:
            if str(ty.args[2]) not in ("-1",):
                st.assume(smt.cols(m) == int(str(ty.args[2])))
            if str(ty.args[1]) not in ("-1",):
                st.assume(smt.rows(m) == int(str(ty.args[1])))

    def pair_voff(self, kt, vt):
        m = self.lay.members(cxx.CT("named", name="std::pair", args=[kt, vt]))
        if m is None:
            # compute from sizes
            if vt.k in ("double", "ptr") or (vt.k == "int" and vt.bits == 64):
                return max(8, self.csize(kt))
            if vt.k == "named":
                return (self.csize(kt) + 7) // 8 * 8
            return self.csize(kt)
        return m[-1][0]

    def csize(self, t):
        if t.k == "int":
            return t.bits // 8
        if t.k in ("double", "ptr"):
            return 8
        if t.k == "bool":
            return 1
        s = self.lay.size(t)
        if s is None:
            if t.name == "std::string":
                return 32
            if t.name == "std::vector":
                return 24
            if t.name in ("std::map", "std::set"):
                return 48
            raise Unsupported("sizeof " + str(t))
        return s

    def default(self, st, ty, ks=()):
        """value-initialised node"""
        n = self.fresh(None, ty, "dflt", ks)
        return self.zeroed(n)

    def zeroed(self, n):
        def z(l):
            if l.ks and l.kind != "mat" and l.kind != "dom":
                base = {"f64": z3.RealVal(0), "str": z3.RealVal(0), "bool": z3.BoolVal(False)}.get(l.kind)
                if base is None and l.e.sort() and l.kind[0] == "i":
                    base = z3.IntVal(0)
                if base is None:
                    return l
                e = base
                for s in reversed(l.ks):
                    e = z3.K(s, e)
                return Leaf(l.kind, e, l.ks)
            if l.ks:
                return l
            if l.kind in ("f64", "str"):
                return Leaf(l.kind, z3.RealVal(0))
            if l.kind == "bool":
                return Leaf(l.kind, z3.BoolVal(False))
            if l.kind[0] == "i":
                return Leaf(l.kind, z3.IntVal(0))
            if l.kind == "dom":
                return Leaf("dom", z3.K(l.e.sort().domain(), z3.BoolVal(False)))
            return l
        if isinstance(n, Vec):
            return Vec(z(n.n), n.el, n.ty)
        if isinstance(n, Dict):
            return Dict(z(n.dom), n.val, n.kkind, n.voff, n.ty)
        if isinstance(n, Struct):
            return Struct({k: self.zeroed(v) for k, v in n.d.items()}, n.ty)
        return z(n)

    # -------------------------------------------------------------- memory
    def elem(self, node, k, i):
        if k == "v":
            if isinstance(node, Vec):
                return sel(node.el, i)
            raise Unsupported("index into %s" % type(node).__name__)
        if k == "m":
            if isinstance(node, Dict):
                d = {0: Leaf(node.kkind, i)}
                if node.val is not None:
                    v = sel(node.val, i)
                    if isinstance(v, Struct):
                        for o, x in v.d.items():
                            d[node.voff + o] = x
                    else:
                        d[node.voff] = v
                return Struct(d)
            raise Unsupported("key into %s" % type(node).__name__)
        if k == "e":
            m = self.matval(node)
            return Leaf("f64", at_simpl(m, i[0], i[1]))
        raise Unsupported("step " + k)

    def matval(self, node):
        if isinstance(node, Leaf) and node.kind == "mat" and not node.ks:
            return node.e
        if isinstance(node, LV):
            return node.val
        raise Unsupported("matrix expected, got %r" % (node,))

    def node_at(self, st, p):
        if p.obj is None:
            raise Unsupported("null dereference")
        if p.obj not in st.mem:
            raise Unsupported("dead object")
        cur = st.mem[p.obj].get(p.off)
        for k, i, o in p.steps:
            if cur is None:
                return None
            if isinstance(cur, LV) and k == "e":
                cur = Leaf("f64", at_simpl(self.lvval(st, cur), i[0], i[1]))
                continue
            e = self.elem(cur, k, i)
            if isinstance(e, Struct):
                cur = e.d.get(o)
            else:
                cur = e if o == 0 else None
        return cur

    def gather(self, st, p, size):
        """{reloff: node} of all cells within [p, p+size)"""
        if p.obj is None:
            raise Unsupported("null dereference")
        if not p.steps:
            d = st.mem[p.obj]
            return {o - p.off: v for o, v in d.items() if p.off <= o < p.off + size}
        par = Ptr(p.obj, p.off, p.steps[:-1])
        k, i, o = p.steps[-1]
        cur = self.node_at(st, par)
        if cur is None:
            raise Unsupported("gather through missing cell")
        e = self.elem(cur, k, i)
        if isinstance(e, Struct):
            return {q - o: v for q, v in e.d.items() if o <= q < o + size}
        return {0: e} if o == 0 else {}

    def write(self, st, p, v):
        if p.obj is None:
            raise Unsupported("null store")
        if isinstance(v, (Agg, Struct)):
            for o, x in v.d.items():
                self.write(st, p.add(o), x)
            return
        if not p.steps:
            st.put(p.obj, p.off, v)
            return
        root = st.mem[p.obj].get(p.off)
        if isinstance(root, LV):
            self.lv_write_elem(st, root, p.steps, v)
            return
        if root is None:
            raise Unsupported("store through missing cell")
        st.put(p.obj, p.off, self.rebuild(st, root, p.steps, v))

    def rebuild(self, st, node, steps, v):
        if not steps:
            return v
        k, i, o = steps[0]
        if k == "e":
            m = self.matval(node)
            if not (isinstance(v, Leaf) and v.kind == "f64"):
                raise Unsupported("matrix element store")
            return Leaf("mat", self.def_mat(st, smt.mset(m, i[0], i[1], v.e)))
        e = self.elem(node, k, i)
        if isinstance(e, Struct):
            d = dict(e.d)
            if steps[1:]:
                if o not in d:
                    raise Unsupported("store path")
                d[o] = self.rebuild(st, d[o], steps[1:], v)
            else:
                if o not in d:
                    raise Unsupported("store at unknown element offset %d" % o)
                d[o] = v
            ne = Struct(d, e.ty)
        else:
            if o != 0:
                raise Unsupported("store into scalar element")
            ne = self.rebuild(st, e, steps[1:], v)
        if k == "v":
            return Vec(node.n, sto(node.el, i, ne), node.ty)
        if k == "m":
            if node.val is None or o < node.voff:
                raise Unsupported("write into key")
            if isinstance(node.val, Struct):
                sub = Struct({q - node.voff: x for q, x in ne.d.items() if q >= node.voff}, node.val.ty)
            else:
                sub = ne.d[node.voff]
            return Dict(node.dom, sto(node.val, i, sub), node.kkind, node.voff, node.ty)
        raise Unsupported("rebuild")

    def def_mat(self, st, e):
        return e

    # ---- Eigen lvalues (filled by contracts_eigen)
    def lvval(self, st, lv):
        raise Unsupported("lvalue")

    def lv_write_elem(self, st, lv, steps, v):
        raise Unsupported("lvalue write")

    # -------------------------------------------------------------- scalar load/store
    def load(self, st, p, t):
        t = self.mod.resolve(t)
        if isinstance(p, Iter):
            p = self.iter_deref(st, p)
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if p.obj is not None and p.obj.startswith("@"):
            self.init_global(st, p.obj)
        n = self.node_at(st, p)
        if n is None:
            return self.load_missing(st, p, t)
        if t.k == "ptr":
            if isinstance(n, Leaf):
                if n.kind == "mat" or n.kind.startswith("opq"):
                    return n
                if n.kind in ("i64",):
                    return n
                raise Unsupported("pointer load of scalar")
            return n
        if isinstance(n, Leaf):
            e = n.e
            if t.k == "int":
                if n.kind == "bool":
                    if t.a == 1:
                        return n.e
                    if t.a == 8:
                        return z3.If(n.e, z3.IntVal(1), z3.IntVal(0))
                    if t.a > 8:
                        return self.load_agg(st, p, t)
                if n.kind[0] == "i" and n.kind[1:].isdigit():
                    w = int(n.kind[1:])
                    if w == t.a:
                        if not z3.is_int_value(e):
                            st.assume(in_range(e, w))
                        return e
                return self.load_agg(st, p, t)
            if t.k == "double":
                if n.kind == "f64":
                    return e
                return self.load_agg(st, p, t)
            if t.k in ("struct", "array"):
                return self.load_agg(st, p, t)
            if t.k == "float" and n.kind == "f64":
                return e
            raise Unsupported("load %s from %s" % (t, n.kind))
        if n is UNDEF or isinstance(n, Undef):
            return UNDEF
        if t.k in ("struct", "array"):
            return self.load_agg(st, p, t)
        return n     # coerced opaque value

    def load_agg(self, st, p, t):
        g = self.gather(st, p, self.mod.size(t))
        return Agg(dict(g))

    def load_missing(self, st, p, t):
        for (o, n) in st.zero.get(p.obj, ()):
            if not p.steps and o <= p.off < o + n:
                if t.k == "int":
                    return z3.BoolVal(False) if t.a == 1 else z3.IntVal(0)
                if t.k == "double":
                    return z3.RealVal(0)
                if t.k == "ptr":
                    return NULL
        if t.k == "ptr":
            vt = self.vtable_at(st, p)
            if vt is not None:
                return vt
        g = self.gather(st, p, self.mod.size(t))
        if g and t.k in ("struct", "array"):
            return Agg(g)
        if g and t.k in ("int", "double"):
            return Agg(g)
        if t.k in ("struct", "array") and not g:
            return Agg({})
        return UNDEF

    def vtable_at(self, st, p):
        """vtable pointer of a polymorphic object received as argument: dynamic type = declared type"""
        if p.steps:
            cur = st.mem[p.obj].get(p.off)
            for k, i, o in p.steps[:-1]:
                e = self.elem(cur, k, i)
                cur = e.d.get(o) if isinstance(e, Struct) else e
            ty = getattr(cur, "ty", None)
            if ty is None or ty.k != "named" or not ty.args:
                return None
            k, i, o = p.steps[-1]
            if k == "v":
                t, off = ty.args[0], o
            elif k == "m" and isinstance(cur, Dict) and cur.val is not None and o >= cur.voff:
                t, off = ty.args[1], o - cur.voff
            else:
                return None
        else:
            t, off = self.objty.get(p.obj), p.off
        return self.find_vptr(t, off)

    def find_vptr(self, t, off):
        if t is None or t.k != "named" or off < 0:
            return None
        if t.name == "mapbox::util::variant":
            k = off // (1 << 20) - 1
            if 0 <= k < len(t.args):
                return self.find_vptr(t.args[k], off - (k + 1) * (1 << 20))
            return None
        for mo, mt, nm in self.lay.members(t) or ():
            if mt.k == "vptr":
                if mo == off:
                    return self.vtable(t)
                continue
            if nm is None and mo == off == 0 and self.has_vptr(mt):
                return self.vtable(t)           # primary base shares the vptr of the most derived class
            r = self.find_vptr(mt, off - mo)
            if r is not None:
                return r
        return None

    def has_vptr(self, t):
        for mo, mt, nm in self.lay.members(t) or ():
            if mt.k == "vptr" or (nm is None and mo == 0 and self.has_vptr(mt)):
                return True
        return False

    def vtable(self, t):
        if not hasattr(self.mod, "vtables"):
            names = [n for n in self.mod.globals if n.startswith("_ZTV")]
            d = ir.demangle(names)
            self.mod.vtables = {str(cxx.parse_type(d[n][len("vtable for "):])): n for n in names}
        n = self.mod.vtables.get(str(t))
        return None if n is None else Ptr("@" + n, 16)

    def store(self, st, p, v, t):
        if not isinstance(p, Ptr):
            if isinstance(p, Iter):
                p = self.iter_deref(st, p)
            else:
                raise Unsupported("store through %r" % (p,))
        t = self.mod.resolve(t)
        if isinstance(v, Agg):
            for o, x in v.d.items():
                self.write(st, p.add(o), x)
            return
        if z3.is_expr(v):
            v = self.mkleaf(v, t)
        if isinstance(v, Undef):
            if not p.steps:
                st.put(p.obj, p.off, UNDEF)
            return
        if isinstance(v, PyObj) and v.kind == "part0":
            v = v.d["v"]
        elif isinstance(v, PyObj) and v.kind == "partN":
            return
        self.write(st, p, v)

    def mkleaf(self, v, t):
        if t.k == "int":
            if t.a == 1:
                return Leaf("bool", tobool(v))
            if z3.is_bool(v):
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return Leaf("i%d" % t.a, v)
        if t.k in ("double", "float"):
            return Leaf("f64", v)
        if t.k == "ptr":
            if z3.is_int(v):
                return Leaf("i64", v)
        raise Unsupported("leaf of %s" % t)

    def iter_deref(self, st, it):
        if it.kind == "v":
            return it.c.step("v", it.pos)
        if it.kind == "m":
            node = self.node_at(st, it.c)
            S = node.dom.e.sort().domain()
            nth = smt.ordfns(S)[0]
            return it.c.step("m", nth(node.dom.e, it.pos))
        if it.kind == "key":
            return it.c.step("m", it.pos)
        raise Unsupported("deref")

    # -------------------------------------------------------------- globals
    def init_global(self, st, obj):
        if obj in st.mem and st.mem[obj]:
            return
        st.mem.setdefault(obj, {})
        line = self.mod.globals.get(obj[1:])
        if line is None:
            raise Unsupported("global " + obj)
        m = re.search(r"\b(constant|global)\s+(.*)$", line)
        if not m:
            raise Unsupported("global " + obj)
        if m.group(1) == "global" and "external" in line:
            raise Unsupported("external global " + obj)
        is_const = m.group(1) == "constant"
        p = ir.P(ir.tokenize(m.group(2)), self.mod)
        t = p.type()
        v = p.value(t)
        if not is_const and not self.opts.get("globals_init"):
            raise Unsupported("mutable global " + obj)
        self.put_const(st, Ptr(obj), t, v)

    def put_const(self, st, p, t, v):
        rt = self.mod.resolve(t)
        if v[0] == "agg":
            for i, (ft, fv) in enumerate(v[1]):
                if rt.k == "array":
                    self.put_const(st, p.add(i * self.mod.size(rt.b)), ft, fv)
                else:
                    o, _ = self.mod.field_off(rt, i)
                    self.put_const(st, p.add(o), ft, fv)
            return
        if v[0] == "zero":
            st.zero[p.obj] = st.zero.get(p.obj, ()) + ((p.off, self.mod.size(t)),)
            return
        if v[0] == "cstr":
            st.put(p.obj, p.off, PyObj("cstr", s=v[1]))
            return
        if v[0] == "undef":
            return
        x = self.const(st, v, t)
        if z3.is_expr(x):
            x = self.mkleaf(x, rt)
        st.put(p.obj, p.off, x)

    # -------------------------------------------------------------- operands
    def const(self, st, v, t):
        k = v[0]
        if k == "int":
            if t.k == "int" and t.a == 1:
                return z3.BoolVal(bool(v[1]))
            return z3.IntVal(v[1])
        if k == "fp":
            x = v[1]
            if x is None:
                raise Unsupported("long double constant")
            if x != x:
                return z3.Real("NaN_const")
            if x in (float("inf"), float("-inf")):
                return z3.Real("INF") if x > 0 else -z3.Real("INF")
            return real_const(x)
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "global":
            n = v[1]
            if n in self.mod.fn_at or n in self.mod.declared:
                return FnPtr(n)
            st.mem.setdefault("@" + n, {})
            return Ptr("@" + n)
        if k == "gep":
            return self.gep(st, v[1], v[2])
        if k == "zero":
            rt = self.mod.resolve(t)
            if rt.k in ("struct", "array"):
                return Agg({})
            if rt.k == "int":
                return z3.IntVal(0)
            if rt.k == "double":
                return z3.RealVal(0)
            return NULL
        if k == "cast":
            return self.const(st, v[3], v[2])
        if k == "agg":
            d = {}
            rt = self.mod.resolve(t)
            for i, (ft, fv) in enumerate(v[1]):
                o, _ = self.mod.field_off(rt, i)
                x = self.const(st, fv, ft)
                if z3.is_expr(x):
                    x = self.mkleaf(x, self.mod.resolve(ft))
                d[o] = x
            return Agg(d)
        raise Unsupported("constant " + str(v))

    def val(self, st, v, t):
        if v[0] == "reg":
            return st.regs[v[1]]
        return self.const(st, v, t)

    def ival(self, st, v, t):
        x = self.val(st, v, t)
        return self.asint(st, x)

    def asint(self, st, x):
        if isinstance(x, Agg):
            if len(x.d) == 1 and 0 in x.d:
                x = x.d[0]
        if isinstance(x, Leaf):
            x = x.e
        if z3.is_expr(x):
            if z3.is_bool(x):
                return z3.If(x, z3.IntVal(1), z3.IntVal(0))
            return x
        raise Unsupported("integer operand %r" % (x,))

    def fval(self, st, v, t):
        x = self.val(st, v, t)
        if isinstance(x, Agg) and 0 in x.d and len(x.d) == 1:
            x = x.d[0]
        if isinstance(x, Leaf):
            x = x.e
        if z3.is_expr(x):
            return x
        raise Unsupported("float operand %r" % (x,))

    def bval(self, st, v):
        x = self.val(st, v, ir.Ty("int", 1))
        if isinstance(x, Leaf):
            x = x.e
        if not z3.is_expr(x):
            raise Unsupported("branch on %r" % (x,))
        return tobool(x)

    def gep(self, st, bt, ops):
        base = self.val(st, ops[0][1], ops[0][0])
        if isinstance(base, Iter):
            base = self.iter_deref(st, base)
        if isinstance(base, FnPtr):
            raise Unsupported("gep on function")
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        idx = [(t, self.ival(st, v, t)) for t, v in ops[1:]]
        e = z3.simplify(idx[0][1])
        off = 0
        if z3.is_int_value(e):
            n = e.as_long()
            off = n * self.mod.size(bt) if n else 0
            if n and base.steps and base.steps[-1][0] == "v":
                # pointer arithmetic over contiguous vector storage
                if self.vec_stride(st, base) == self.mod.size(bt) and base.steps[-1][2] == 0:
                    k, i, o = base.steps[-1]
                    base = Ptr(base.obj, base.off, base.steps[:-1] + ((k, z3.simplify(i + n), 0),))
                    off = 0
        else:
            if base.steps and base.steps[-1][0] == "v" and base.steps[-1][2] == 0:
                if self.vec_stride(st, base) == self.mod.size(bt):
                    k, i, o = base.steps[-1]
                    base = Ptr(base.obj, base.off, base.steps[:-1] + ((k, z3.simplify(i + e), 0),))
                else:
                    raise Unsupported("symbolic gep stride")
            else:
                raise Unsupported("symbolic gep")
        t = bt
        for (it, ie) in idx[1:]:
            rt = self.mod.resolve(t)
            ie = z3.simplify(ie)
            if not z3.is_int_value(ie):
                raise Unsupported("symbolic array index")
            n = ie.as_long()
            if rt.k in ("struct", "packed"):
                o, t = self.mod.field_off(rt, n)
                off += o
            elif rt.k == "array":
                off += n * self.mod.size(rt.b)
                t = rt.b
            else:
                raise Unsupported("gep into " + rt.k)
        return base.add(off)

    def vec_stride(self, st, p):
        node = self.node_at(st, Ptr(p.obj, p.off, p.steps[:-1]))
        if isinstance(node, Vec):
            return self.csize(node.ty.args[0])
        return None

    # -------------------------------------------------------------- running functions
    def run_fn(self, st, name, args):
        """execute a defined function; returns [(state, retval)]"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        f = self.mod.func(name)
        saved = st.regs
        if st.depth > 120:
            raise Unsupported("recursion too deep in " + self.mod.dem.get(name, name)[:80])
        st.depth += 1
        st.regs = {}
        for (t, nm, at), a in zip(f.params, args):
            if "byval" in at:
                o = self.new_obj(st, "byval")
                sz = self.mod.size(at["byval"])
                for ro, v in self.gather(st, a, sz).items():
                    st.put(o, ro, v)
                a = Ptr(o)
            st.regs[nm] = a
        self.fnstack.append(name)
        self.inlined.add(name)
        try:
            b, e, r = self.region(st, f, f.order[0], None, None, None)
        finally:
            self.fnstack.pop()
        out = []
        for s, v in r:
            s.regs = dict(saved)
            s.depth -= 1
            out.append((s, v))
        if len(out) > 1:
            out = self.merge(out)
        return out

    def merge(self, outs):
        """merge result states that differ only in scalar leaves (keeps path counts down)"""
        return outs

    def region(self, st, f, start, prev, body, hdr):
        """run from block start; body None = whole function.  Returns (backs, exits, rets)"""
        backs, exits, rets = [], [], []
        work = [(st, start, prev, True)]
        loops = f.loops()
        while work:
            if len(work) > MAXPATHS or len(rets) > MAXPATHS:
                raise Unsupported("too many paths in " + self.mod.dem.get(f.name, f.name)[:80])
            s, b, pv, first = work.pop()
            if not (first and b == start and hdr == b):
                if body is not None:
                    if b == hdr:
                        backs.append((s, pv))
                        continue
                    if b not in body:
                        exits.append((s, b, pv))
                        continue
                if b in loops and b != hdr:
                    ex, rt = self.loop(s, f, b, pv)
                    for s2, b2, p2 in ex:
                        if body is not None and b2 not in body:
                            exits.append((s2, b2, p2))
                        elif body is not None and b2 == hdr:
                            backs.append((s2, p2))
                        else:
                            work.append((s2, b2, p2, False))
                    rets += rt
                    continue
            elif first and b in loops and b != hdr and hdr is None:
                pass
            for kind, x in self.block(s, f, b, pv):
                if kind == "goto":
                    s2, b2 = x
                    work.append((s2, b2, b, False))
                elif kind == "ret":
                    rets.append(x)
        return backs, exits, rets

    # ---------------------------------------------------------------- loops
    def loop(self, st, f, hdr, prev):
        r = self.unroll(st, f, hdr, prev)
        if r is not None:
            return r
        if self.concrete_only:
            raise Abort()
        return self.cut_loop(st, f, hdr, prev)

    def unroll(self, st, f, hdr, prev, limit=24):
        body = f.loops()[hdr]
        mark = len(self.obls)
        tm = len(self.throws)
        cur = [(st.fork(), prev)]
        exits, rets = [], []
        self.concrete_only += 1
        try:
            for it in range(limit):
                nxt = []
                for s, p in cur:
                    b, e, r = self.region(s, f, hdr, p, body, hdr)
                    if b and (e or r):
                        raise Abort()
                    nxt += b
                    exits += e
                    rets += r
                if not nxt:
                    return exits, rets
                if len(nxt) > 4:
                    raise Abort()
                cur = nxt
            raise Abort()
        except Abort:
            del self.obls[mark:]
            del self.throws[tm:]
            return None
        except Unsupported:
            del self.obls[mark:]
            del self.throws[tm:]
            return None
        finally:
            self.concrete_only -= 1

    def havoc(self, st, M):
        for (obj, off) in sorted(M, key=str):
            if obj not in st.mem:
                continue
            v = st.mem[obj].get(off)
            st.put(obj, off, self.havoc_val(st, v, M[(obj, off)]))

    def havoc_val(self, st, v, how):
        if how == "undef":
            return UNDEF
        if isinstance(v, Iter):
            pos = z3.Int(fresh_name("pos"))
            return Iter(v.kind, v.c, pos, v.rev)
        if isinstance(v, Leaf):
            n = freshen(v, "hv")
            if n.kind[0] == "i" and n.kind[1:].isdigit():
                st.assume(in_range(n.e, int(n.kind[1:])))
            if n.kind == "mat":
                st.assume(smt.rows(n.e) >= 0)
                st.assume(smt.cols(n.e) >= 0)
            return n
        if isinstance(v, Vec):
            n = freshen(v, "hv")
            st.assume(z3.And(n.n.e >= 0, n.n.e <= MAXLEN))
            return n
        if isinstance(v, Dict):
            n = freshen(v, "hv")
            st.assume(smt.ordfns(n.dom.e.sort().domain())[2](n.dom.e) >= 0)
            return n
        if isinstance(v, Struct):
            return Struct({k: self.havoc_val(st, x, how) for k, x in v.d.items()}, v.ty)
        if isinstance(v, PyObj) and v.kind in ("back_inserter", "inserter"):
            return v
        if isinstance(v, PyObj):
            return PyObj(v.kind, **{k: (freshen(x, "hv") if isinstance(x, Leaf) else x) for k, x in v.d.items()})
        return UNDEF

    def changed(self, entry, before, after, M):
        """cells of objects that existed at loop entry whose value changed during the body"""
        out = {}
        for obj, cells in after.mem.items():
            if obj not in entry.mem:
                continue
            b = before.mem.get(obj, {})
            if cells is b:
                continue
            for off, v in cells.items():
                if not same(v, b.get(off)):
                    how = "havoc"
                    v0 = entry.mem[obj].get(off)
                    if v0 is None or isinstance(v0, Undef):
                        how = "undef"
                    elif isinstance(v0, (Ptr, FnPtr, LV, Agg)) or type(v0) is not type(v):
                        how = "undef"
                    elif isinstance(v0, Iter) and (v0.kind != v.kind or v0.c.key() != v.c.key()):
                        how = "undef"
                    elif isinstance(v0, Leaf) and v0.kind != v.kind:
                        how = "undef"
                    elif isinstance(v0, PyObj) and v0.kind != v.kind:
                        how = "undef"
                    out[(obj, off)] = how
            for off in b:
                if off not in cells:
                    out[(obj, off)] = "undef"
        return out

    def cut_loop(self, st, f, hdr, prev):
        body = f.loops()[hdr]
        for ins in f.blocks[hdr]:
            if ins.op == "phi":
                raise Unsupported("phi at loop header")
        entry = st
        mark = len(self.obls)
        tmark = len(self.throws)
        M = {}
        where = "%s:%s" % (self.mod.dem.get(f.name, f.name), hdr)
        if self.spec_depth > 6:
            raise Unsupported("loops nested too deep")
        self.spec_depth += 1
        try:
            # ---- frame discovery
            for rnd in range(8):
                s = entry.fork()
                self.havoc(s, M)
                before = s.fork()
                self.discovering += 1
                try:
                    backs, exits, rets = self.region(s, f, hdr, prev, body, hdr)
                finally:
                    self.discovering -= 1
                new = {}
                for b, _ in backs:
                    for k, how in self.changed(entry, before, b, M).items():
                        if k not in M or (M[k] == "havoc" and how == "undef"):
                            new[k] = how if new.get(k) != "undef" else "undef"
                del self.obls[mark:]
                del self.throws[tmark:]
                if not new:
                    break
                M.update(new)
            else:
                raise Unsupported("loop frame does not converge")
            # ---- candidates
            ctx = LoopCtx(self, entry, M, where, f, hdr)
            cands = []
            for nm, fn in self.auto_candidates(ctx):
                cands.append((nm, fn))
            for t in self.templates:
                for nm, fn in t(ctx) or []:
                    cands.append((nm, fn))
            live = []
            if self.discovering:      # an outer loop only wants to know what is modified
                cands = [x for x in cands if x[0].endswith((">=0", ">=entry"))]
            at = []
            for nm, fn in cands:
                try:
                    g = fn(entry)
                except Unsupported:
                    continue
                if g is not None:
                    at.append((nm, fn, g))
            batch = smt.Batch(entry.facts, [g for _, _, g in at], self.opts.get("cand_ms", 1500)) if at else None
            for nm, fn, g in at:
                r = batch.prove(g)
                if r[0] == "proved":
                    live.append((nm, fn))
                else:
                    self.starved += r[1] == "resources" and not self.discovering
                    self.dropped.append((where, nm, "entry"))
            # ---- houdini
            for rnd in range(40):
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget exhausted")
                s = entry.fork()
                self.havoc(s, M)
                hd = s.fork()
                for nm, fn in live:
                    g = fn(s)
                    if g is not None:
                        s.assume(g)
                start = s.fork()
                backs, exits, rets = self.region(s, f, hdr, prev, body, hdr)
                bad = set()
                for bi, (b, _) in enumerate(backs):
                    for k, how in self.changed(entry, start, b, M).items():
                        if k not in M or (M[k] == "havoc" and how == "undef"):
                            raise Unsupported("loop frame unstable at %s" % (k,))
                    todo = [(ci, fn(b)) for ci, (nm, fn) in enumerate(live) if ci not in bad]
                    bad |= {ci for ci, g in todo if g is None}
                    todo = [(ci, g) for ci, g in todo if g is not None]
                    batch = smt.Batch(b.facts, [g for _, g in todo], self.opts.get("cand_ms", 1500)) if todo else None
                    for ci, g in todo:
                        r = batch.prove(g)
                        if r[0] != "proved":
                            bad.add(ci)
                            self.starved += r[1] == "resources" and not self.discovering
                if not bad:
                    break
                for ci in sorted(bad, reverse=True):
                    self.dropped.append((where, live[ci][0], "step"))
                    del live[ci]
                del self.obls[mark:]
                del self.throws[tmark:]
            else:
                raise Unsupported("houdini does not converge")
        finally:
            self.spec_depth -= 1
        if not self.concrete_only:
            self.cut.append((where, [nm for nm, _ in live], len(backs)))
            for nm, fn in live:
                o = Obligation("loop-invariant:" + nm, [], z3.BoolVal(True), where, "invariant")
                o.status = "proved"
                self.obls.append(o)
        return exits, rets

    def auto_candidates(self, ctx):
        out = []
        ints = ctx.ints()
        bounds = ctx.bounds()
        for nm, g in ints:
            x0 = g(ctx.entry)
            out.append((nm + ">=entry", lambda s, g=g, x0=x0: g(s) >= x0))
            out.append((nm + "<=entry", lambda s, g=g, x0=x0: g(s) <= x0))
            if not z3.is_int_value(z3.simplify(x0)) or z3.simplify(x0).as_long() != 0:
                out.append((nm + ">=0", lambda s, g=g: g(s) >= 0))
            for bn, b in bounds:
                out.append((nm + "<=" + bn, lambda s, g=g, b=b: g(s) <= b(s)))
                if not bn.startswith(("len", "size", "rows", "cols")):
                    out.append((nm + "<=1+" + bn, lambda s, g=g, b=b: g(s) <= b(s) + 1))
        for i in range(len(ints)):
            for j in range(i + 1, len(ints)):
                (n1, g1), (n2, g2) = ints[i], ints[j]
                a0, b0 = g1(ctx.entry), g2(ctx.entry)
                out.append((n1 + "~" + n2, lambda s, g1=g1, g2=g2, a0=a0, b0=b0: g1(s) - a0 == g2(s) - b0))
        for nm, g in ctx.of(Vec):
            n0 = g(ctx.entry).n.e
            out.append((nm + ".len==entry", lambda s, g=g, n0=n0: g(s).n.e == n0))
        for nm, g in ctx.mats():
            m0 = g(ctx.entry).e
            out.append((nm + ".rows==entry", lambda s, g=g, m0=m0: smt.rows(g(s).e) == smt.rows(m0)))
            out.append((nm + ".cols==entry", lambda s, g=g, m0=m0: smt.cols(g(s).e) == smt.cols(m0)))
        return out

    # ---------------------------------------------------------------- blocks
    def block(self, st, f, b, prev):
        """execute one block; yields ('goto',(st,label)) / ('ret',(st,val))"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        res = []
        ins = f.blocks[b]
        # phis
        i = 0
        newr = {}
        while i < len(ins) and ins[i].op == "phi":
            a = ins[i].a
            for v, l in a["inc"]:
                if l == prev:
                    newr[ins[i].dst] = self.val(st, v, a["t"])
                    break
            else:
                raise Unsupported("phi pred")
            i += 1
        st.regs.update(newr)
        cur = [(st, i)]
        while cur:
            s, i = cur.pop()
            while True:
                n = ins[i]
                op = n.op
                if op == "br":
                    if n.a["c"] is None:
                        res.append(("goto", (s, n.a["t"])))
                    else:
                        self.branch(s, self.bval(s, n.a["c"]), n.a["t"], n.a["f"], res)
                    break
                if op == "switch":
                    self.switch(s, n, res)
                    break
                if op == "ret":
                    v = None if n.a["v"] is None else self.val(s, n.a["v"], n.a["t"])
                    res.append(("ret", (s, v)))
                    break
                if op == "unreachable":
                    break
                if op in ("call", "invoke"):
                    outs = self.call(s, f, n)
                    for s2, v in outs:
                        if n.dst is not None:
                            s2.regs[n.dst] = v
                    if op == "invoke":
                        for s2, v in outs:
                            res.append(("goto", (s2, n.a["normal"])))
                        break
                    if not outs:
                        break
                    for s2, v in outs[1:]:
                        cur.append((s2, i + 1))
                    s = outs[0][0]
                    i += 1
                    continue
                if op == "select":
                    c = z3.simplify(self.bval(s, n.a["c"]))
                    x, y = self.val(s, n.a["a"], n.a["t"]), self.val(s, n.a["b"], n.a["t"])
                    if z3.is_true(c):
                        s.regs[n.dst] = x
                    elif z3.is_false(c):
                        s.regs[n.dst] = y
                    elif z3.is_expr(x) and z3.is_expr(y):
                        s.regs[n.dst] = z3.If(c, x, y)
                    else:
                        s2 = s.fork()
                        s2.assume(z3.Not(c))
                        s2.regs[n.dst] = y
                        if self.feas.feasible(s2.facts):
                            cur.append((s2, i + 1))
                        s.assume(c)
                        s.regs[n.dst] = x
                    i += 1
                    continue
                self.simple(s, n)
                i += 1
        return res

    def branch(self, s, c, t, f, res):
        c = z3.simplify(c)
        if z3.is_true(c):
            res.append(("goto", (s, t)))
            return
        if z3.is_false(c):
            res.append(("goto", (s, f)))
            return
        ft = self.feas.feasible(s.facts, c)
        nc = z3.simplify(z3.Not(c))
        ff = self.feas.feasible(s.facts, nc)
        if ft and ff:
            s2 = s.fork()
            s2.assume(nc)
            res.append(("goto", (s2, f)))
            s.assume(c)
            res.append(("goto", (s, t)))
        elif ft:
            s.assume(c)
            res.append(("goto", (s, t)))
        elif ff:
            s.assume(nc)
            res.append(("goto", (s, f)))

    def switch(self, s, n, res):
        x = self.ival(s, n.a["c"], n.a["t"])
        xs = z3.simplify(x)
        if z3.is_int_value(xs):
            for v, l in n.a["cases"]:
                if v == xs.as_long():
                    res.append(("goto", (s, l)))
                    return
            res.append(("goto", (s, n.a["default"])))
            return
        dflt = []
        for v, l in n.a["cases"]:
            c = x == v
            dflt.append(z3.Not(c))
            if self.feas.feasible(s.facts, c):
                s2 = s.fork()
                s2.assume(c)
                res.append(("goto", (s2, l)))
        dc = z3.And(dflt)
        if self.feas.feasible(s.facts, dc):
            s.assume(dc)
            res.append(("goto", (s, n.a["default"])))

    def simple(self, s, n):
        op = n.op
        a = n.a
        if op == "alloca":
            o = self.new_obj(s, "a")
            s.regs[n.dst] = Ptr(o)
        elif op == "load":
            p = self.val(s, a["p"], ir.PTR)
            s.regs[n.dst] = self.load(s, p, a["t"])
        elif op == "store":
            v = self.val(s, a["v"], a["t"])
            self.store(s, self.val(s, a["p"], ir.PTR), v, a["t"])
        elif op == "gep":
            s.regs[n.dst] = self.gep(s, a["bt"], a["ops"])
        elif op == "bin":
            s.regs[n.dst] = self.binop(s, a)
        elif op == "fneg":
            s.regs[n.dst] = -self.fval(s, a["a"], a["t"])
        elif op == "icmp":
            s.regs[n.dst] = self.icmp(s, a)
        elif op == "fcmp":
            s.regs[n.dst] = self.fcmp(s, a)
        elif op == "cast":
            s.regs[n.dst] = self.cast(s, a)
        elif op == "extractvalue":
            s.regs[n.dst] = self.extract(s, a)
        elif op == "insertvalue":
            s.regs[n.dst] = self.insert(s, a)
        elif op == "copy":
            s.regs[n.dst] = self.val(s, a["v"], a["t"])
        elif op == "landingpad":
            s.regs[n.dst] = UNDEF
        else:
            raise Unsupported("instruction " + op)

    def binop(self, s, a):
        op, t = a["op"], a["t"]
        if op[0] == "f":
            x, y = self.fval(s, a["a"], t), self.fval(s, a["b"], t)
            if op == "fadd":
                return x + y
            if op == "fsub":
                return x - y
            if op == "fmul":
                return x * y
            if op == "fdiv":
                return x / y
            raise Unsupported(op)
        if t.k != "int":
            raise Unsupported("vector op")
        w = t.a
        if w == 1:
            x, y = tobool(self.val(s, a["a"], t)), tobool(self.val(s, a["b"], t))
            if op == "and":
                return z3.And(x, y)
            if op == "or":
                return z3.Or(x, y)
            if op == "xor":
                return z3.Xor(x, y)
            raise Unsupported("i1 " + op)
        vx, vy = self.val(s, a["a"], t), self.val(s, a["b"], t)
        if isinstance(vx, PyObj) and isinstance(vy, PyObj) and vx.kind == vy.kind == "ptrint" and op == "sub":
            p, q = vx.d["p"], vy.d["p"]
            if p.obj == q.obj and p.off == q.off and p.steps and q.steps and \
                    p.steps[-1][0] == "v" and q.steps[-1][0] == "v":
                st_ = self.vec_stride(s, p)
                return (p.steps[-1][1] - q.steps[-1][1]) * st_
            raise Unsupported("pointer difference")
        x, y = self.asint(s, vx), self.asint(s, vy)
        fl = a["fl"]
        if op in ("add", "sub", "mul"):
            e = x + y if op == "add" else x - y if op == "sub" else x * y
            e = z3.simplify(e)
            if z3.is_int_value(e):
                v = e.as_long()
                return z3.IntVal(wrap_int(v, w))
            if "nsw" in fl:
                return e
            return self.wrap(s, e, w)
        if op in ("sdiv", "udiv", "srem", "urem"):
            if op[0] == "u":
                x, y = self.tou(s, x, w), self.tou(s, y, w)
            nonneg = op[0] == "u" or self.nonneg(s, x, y)
            if op[1:] == "div":
                e = x / y if nonneg else z3.If(x >= 0, z3.If(y > 0, x / y, -(x / (-y))),
                                               z3.If(y > 0, -((-x) / y), (-x) / (-y)))
            else:
                e = x % y if nonneg else z3.If(x >= 0, x % z3.If(y > 0, y, -y), -((-x) % z3.If(y > 0, y, -y)))
            return self.wrap(s, e, w) if op[0] == "u" else e
        if op in ("shl", "lshr", "ashr"):
            ys = z3.simplify(y)
            if not z3.is_int_value(ys):
                if op == "shl" and z3.is_int_value(z3.simplify(x)):
                    raise Unsupported("symbolic shift")
                raise Unsupported("symbolic shift")
            k = ys.as_long()
            if op == "shl":
                return self.wrap(s, x * (1 << k), w)
            if op == "ashr":
                return x / (1 << k)
            return self.tou(s, x, w) / (1 << k)
        if op == "and":
            for p, q in ((x, y), (y, x)):
                qs = z3.simplify(q)
                if z3.is_int_value(qs):
                    m = qs.as_long()
                    if m == 0:
                        return z3.IntVal(0)
                    if m == 1:
                        return p % 2
                    if m > 0 and (m & (m + 1)) == 0:
                        return p % (m + 1)
                    if m == -1:
                        return p
            xs, ys = z3.simplify(x), z3.simplify(y)
            if z3.is_int_value(xs) and z3.is_int_value(ys):
                return z3.IntVal(xs.as_long() & ys.as_long())
        if op == "xor":
            if z3.is_int_value(z3.simplify(y)) and z3.simplify(y).as_long() == -1:
                return -x - 1
        if op in ("or", "xor", "and"):
            xs, ys = z3.simplify(x), z3.simplify(y)
            if z3.is_int_value(xs) and z3.is_int_value(ys):
                a_, b_ = xs.as_long(), ys.as_long()
                return z3.IntVal(a_ | b_ if op == "or" else a_ ^ b_)
            if op in ("or",) and z3.is_int_value(ys) and ys.as_long() == 0:
                return x
        raise Unsupported("bit operation " + op)

    def nonneg(self, s, x, y):
        return (not self.feas.feasible(s.facts, z3.Or(x < 0, y <= 0)))

    def wrap(self, s, e, w):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        c = z3.Or(e < lo, e > hi)
        if not self.feas.feasible(s.facts, c):
            return e
        m = 1 << w
        return z3.simplify((e + (1 << (w - 1))) % m - (1 << (w - 1)))

    def tou(self, s, x, w):
        xs = z3.simplify(x)
        if z3.is_int_value(xs):
            v = xs.as_long()
            return z3.IntVal(v if v >= 0 else v + (1 << w))
        if not self.feas.feasible(s.facts, x < 0):
            return x
        return z3.If(x < 0, x + (1 << w), x)

    def icmp(self, s, a):
        x, y = self.val(s, a["a"], a["t"]), self.val(s, a["b"], a["t"])
        pr = a["pr"]
        if isinstance(x, Leaf):
            x = x.e
        if isinstance(y, Leaf):
            y = y.e
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            if pr in ("eq", "ne"):
                e = isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name
                return z3.BoolVal(e if pr == "eq" else not e)
        if isinstance(x, Ptr) or isinstance(y, Ptr) or isinstance(x, Iter) or isinstance(y, Iter):
            return self.ptrcmp(s, pr, x, y)
        if isinstance(x, PyObj) or isinstance(y, PyObj):
            for p, q in ((x, y), (y, x)):
                if isinstance(p, PyObj) and isinstance(q, PyObj) and p.kind == q.kind == "ptrint":
                    return self.ptrcmp(s, pr, x.d["p"], y.d["p"])
            raise Unsupported("compare opaque")
        if a["t"].k == "int" and a["t"].a == 1:
            x, y = tobool(x), tobool(y)
            if pr == "eq":
                return x == y
            if pr == "ne":
                return z3.Xor(x, y)
        x, y = self.asint(s, x), self.asint(s, y)
        if pr == "eq":
            return x == y
        if pr == "ne":
            return x != y
        if pr[0] == "u":
            w = a["t"].a
            x, y = self.tou(s, x, w), self.tou(s, y, w)
        return {"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pr[1:]]

    def ptrcmp(self, s, pr, x, y):
        if isinstance(x, Iter) and isinstance(y, Iter) and x.c.key() == y.c.key():
            return {"eq": x.pos == y.pos, "ne": x.pos != y.pos}.get(pr) if pr in ("eq", "ne") else \
                {"gt": x.pos > y.pos, "ge": x.pos >= y.pos, "lt": x.pos < y.pos, "le": x.pos <= y.pos}[pr[1:]]
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.key() == y.key():
                return z3.BoolVal(pr in ("eq", "uge", "ule", "sge", "sle"))
            if x.obj is None or y.obj is None or x.obj != y.obj:
                if pr in ("eq", "ne"):
                    return z3.BoolVal(pr == "ne")
                raise Unsupported("pointer order")
            if len(x.steps) == len(y.steps) and x.off == y.off and len(x.steps) >= 1:
                if all(p[0] == q[0] and p[2] == q[2] for p, q in zip(x.steps, y.steps)) and \
                        x.steps[-1][0] in ("v", "m") and \
                        Ptr(x.obj, x.off, x.steps[:-1]).key() == Ptr(y.obj, y.off, y.steps[:-1]).key():
                    i, j = x.steps[-1][1], y.steps[-1][1]
                    if pr == "eq":
                        return i == j
                    if pr == "ne":
                        return i != j
                    return {"gt": i > j, "ge": i >= j, "lt": i < j, "le": i <= j}[pr[1:]]
            if not x.steps and not y.steps:
                if pr == "eq":
                    return z3.BoolVal(x.off == y.off)
                if pr == "ne":
                    return z3.BoolVal(x.off != y.off)
        raise Unsupported("pointer comparison %s %r %r" % (pr, x, y))

    def fcmp(self, s, a):
        x, y = self.fval(s, a["a"], a["t"]), self.fval(s, a["b"], a["t"])
        pr = a["pr"]
        if pr == "uno":
            return z3.BoolVal(False)
        if pr == "ord":
            return z3.BoolVal(True)
        if pr == "true":
            return z3.BoolVal(True)
        if pr == "false":
            return z3.BoolVal(False)
        return {"eq": lambda: x == y, "ne": lambda: x != y, "gt": lambda: x > y, "ge": lambda: x >= y,
                "lt": lambda: x < y, "le": lambda: x <= y}[pr[1:]]()

    def cast(self, s, a):
        op = a["op"]
        v = self.val(s, a["v"], a["t"])
        to = a["to"]
        if op in ("bitcast",):
            return v
        if op == "ptrtoint":
            if isinstance(v, Ptr):
                return PyObj("ptrint", p=v)
            return v
        if op == "inttoptr":
            if isinstance(v, PyObj) and v.kind == "ptrint":
                return v.d["p"]
            return v
        if op in ("sext", "zext", "trunc"):
            if isinstance(v, Undef):
                return v
            if a["t"].k == "int" and a["t"].a == 1:
                b = tobool(v)
                one = 1 if op == "zext" else -1
                return z3.If(b, z3.IntVal(one), z3.IntVal(0))
            if op == "trunc" and to.a == 1:
                x = self.asint(s, v)
                return bool_of_int(x)
            x = self.asint(s, v)
            if op == "sext":
                return x
            if op == "zext":
                return self.tou(s, x, a["t"].a)
            return self.wrap(s, x, to.a)
        if op in ("sitofp",):
            return z3.ToReal(self.asint(s, v)) if not z3.is_int_value(z3.simplify(self.asint(s, v))) else \
                z3.RealVal(z3.simplify(self.asint(s, v)).as_long())
        if op == "uitofp":
            x = self.tou(s, self.asint(s, v), a["t"].a)
            xs = z3.simplify(x)
            return z3.RealVal(xs.as_long()) if z3.is_int_value(xs) else z3.ToReal(x)
        if op in ("fptosi", "fptoui"):
            x = self.fval(s, a["v"], a["t"])
            e = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            return e
        if op in ("fpext", "fptrunc"):
            return v
        raise Unsupported("cast " + op)

    def extract(self, s, a):
        v = self.val(s, a["v"], a["t"])
        t = self.mod.resolve(a["t"])
        if len(a["idx"]) != 1:
            raise Unsupported("nested extractvalue")
        o, ft = self.mod.field_off(t, a["idx"][0])
        if isinstance(v, Agg):
            rft = self.mod.resolve(ft)
            sz = self.mod.size(ft)
            sub = {k - o: x for k, x in v.d.items() if o <= k < o + sz}
            if len(sub) == 1 and 0 in sub:
                x = sub[0]
                if isinstance(x, Leaf):
                    if rft.k == "double" and x.kind == "f64":
                        return x.e
                    if rft.k == "int" and x.kind == "i%d" % rft.a:
                        return x.e
                    if rft.k == "int" and rft.a == 8 and x.kind == "bool":
                        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
                    if rft.k == "int" and rft.a == 1 and x.kind == "bool":
                        return x.e
                    return Agg(sub)
                return x
            return Agg(sub)
        if isinstance(v, Undef):
            return v
        # coerced opaque value returned in registers
        return PyObj("part0", v=v) if a["idx"][0] == 0 else PyObj("partN")

    def insert(self, s, a):
        v = self.val(s, a["v"], a["t"])
        t = self.mod.resolve(a["t"])
        o, ft = self.mod.field_off(t, a["idx"][0])
        e = self.val(s, a["e"], a["et"])
        d = dict(v.d) if isinstance(v, Agg) else {}
        if z3.is_expr(e):
            e = self.mkleaf(e, self.mod.resolve(ft))
        if isinstance(e, Agg):
            for k, x in e.d.items():
                d[o + k] = x
        elif not isinstance(e, Undef):
            d[o] = e
        return Agg(d)

    # ---------------------------------------------------------------- calls
    def call(self, s, f, n):
        a = n.a
        cal = a["f"]
        args = []
        tys = []
        attrs = []
        for t, v, at in a["args"]:
            args.append(self.val(s, v, t) if t.k != "metadata" else UNDEF)
            tys.append(t)
            attrs.append(at)
        if cal[0] == "reg":
            fp = s.regs[cal[1]]
            if not isinstance(fp, FnPtr):
                raise Unsupported("indirect call")
            name = fp.name
        elif cal[0] == "global":
            name = cal[1]
        else:
            raise Unsupported("call target")
        return self.call_name(s, name, a["t"], args, tys, attrs)

    def call_name(self, s, name, rt, args, tys=None, attrs=None):
        tys = tys or [ir.PTR] * len(args)
        attrs = attrs or [{} for _ in args]
        if name.startswith("llvm."):
            return self.intrinsic(s, name, rt, args)
        dem = self.mod.dem.get(name, name)
        c = Call(self, s, name, dem, rt, args, tys, attrs)
        h = self.contracts.get(c.key)
        if h is None:
            for rx, hh in PATTERNS:
                if rx.match(c.key):
                    h = hh
                    break
        if h is not None:
            r = h(c)
            if r is not NotImplemented:
                self.used_contracts[c.key] = self.used_contracts.get(c.key, 0) + 1
                return r
        if name in self.mod.fn_at:
            return self.run_fn(s, name, args)
        return self.external(c)

    def external(self, c):
        """undefined function declared by the harness (namespace vpx): uninterpreted pure function"""
        if not c.key.startswith("vpx::"):
            raise Unsupported("no body and no contract for " + c.dem[:200])
        xs = []
        for v, pt in zip(c.args, c.params):
            xs += self.flat(c.st, v, pt)
        rt = self.mod.resolve(c.rt)
        if rt.k == "double":
            S = REAL
        elif rt.k == "int" and rt.a == 1:
            S = BOOL
        elif rt.k == "int":
            S = INT
        elif c.sret is not None or rt.k == "void":
            h = self.opts.get("external_ret", {}).get(c.key)
            if h is None:
                raise Unsupported("external returning object " + c.key)
            return h(c, xs)
        else:
            raise Unsupported("external return type")
        fn = smt.uf(c.key, *([x.sort() for x in xs] + [S]))
        self.externals[c.key] = len(xs)
        r = fn(*xs) if xs else z3.Const(c.key, S)
        if S == INT:
            c.st.assume(in_range(r, rt.a))
        return [(c.st, r)]

    def flat(self, st, v, pt):
        if z3.is_expr(v):
            return [v]
        if isinstance(v, Leaf):
            return [v.e]
        if isinstance(v, Iter):
            v = self.iter_deref(st, v)
        if isinstance(v, Agg):
            return [x.e for k in sorted(v.d) for x in leaves(v.d[k])]
        if isinstance(v, Ptr):
            ct = cxx.parse_type(pt)
            g = self.gather(st, v, self.csize(ct) if ct.k != "ptr" else self.csize(ct.tgt))
            out = []
            for k in sorted(g):
                if not isinstance(g[k], Undef):
                    out += [x.e for x in leaves(g[k])]
            return out
        raise Unsupported("argument of external: %r" % (v,))

    def oblige(self, st, name, goal, kind="safety"):
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        self.obls.append(Obligation(name, list(st.facts), goal, self.mod.dem.get(self.fnstack[-1], "?")[:160]
                                    if self.fnstack else "spec", kind))

    def intrinsic(self, s, name, rt, args):
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(s, args[0], args[1], args[2])
            return [(s, None)]
        if name.startswith("llvm.memset"):
            n = z3.simplify(args[2])
            v = z3.simplify(args[1])
            if not (z3.is_int_value(n) and z3.is_int_value(v) and v.as_long() == 0):
                raise Unsupported("memset")
            p = args[0]
            if p.steps:
                raise Unsupported("memset element")
            s.drop(p.obj, p.off, p.off + n.as_long())
            s.zero[p.obj] = s.zero.get(p.obj, ()) + ((p.off, n.as_long()),)
            return [(s, None)]
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental", "llvm.va_",
                            "llvm.stackrestore", "llvm.donothing")):
            return [(s, None)]
        if name.startswith("llvm.stacksave"):
            return [(s, NULL)]
        if name.startswith("llvm.trap"):
            return []
        if name.startswith("llvm.expect"):
            return [(s, args[0])]
        if name.startswith("llvm.is.constant"):
            return [(s, z3.BoolVal(False))]
        if name.startswith("llvm.objectsize"):
            return [(s, z3.IntVal(-1))]
        if name.startswith("llvm.fabs"):
            x = self.num(args[0])
            return [(s, z3.If(x >= 0, x, -x))]
        m = re.match(r"llvm\.(sqrt|exp|log|pow|floor|ceil|trunc|sin|cos|minnum|maxnum|copysign|rint|nearbyint|round)\.f64", name)
        if m:
            return [(s, self.mathfn(s, m.group(1), [self.num(x) for x in args]))]
        m = re.match(r"llvm\.(umul|uadd|usub|smul|sadd|ssub)\.with\.overflow\.i(\d+)", name)
        if m:
            w = int(m.group(2))
            op = m.group(1)
            x, y = self.asint(s, args[0]), self.asint(s, args[1])
            if op[0] == "u":
                x, y = self.tou(s, x, w), self.tou(s, y, w)
            e = {"mul": x * y, "add": x + y, "sub": x - y}[op[1:]]
            lo, hi = (0, (1 << w) - 1) if op[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            ov = z3.Or(e < lo, e > hi)
            return [(s, Agg({0: Leaf("i%d" % w, self.wrap(s, e, w)), w // 8: Leaf("bool", ov)}))]
        if name.startswith(("llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin", "llvm.abs")):
            x = self.asint(s, args[0])
            if name.startswith("llvm.abs"):
                return [(s, z3.If(x >= 0, x, -x))]
            y = self.asint(s, args[1])
            if name[5] == "u":
                raise Unsupported(name)
            return [(s, z3.If(x >= y, x, y) if "max" in name else z3.If(x <= y, x, y))]
        if name.startswith("llvm.is.fpclass"):
            mask = z3.simplify(args[1]).as_long()
            # finite reals: nan/inf bits never set
            return [(s, z3.BoolVal(True) if mask & 0x1F8 == 0x1F8 else z3.BoolVal(False))]
        raise Unsupported("intrinsic " + name)

    def num(self, x):
        if isinstance(x, Leaf):
            x = x.e
        if not z3.is_expr(x):
            raise Unsupported("number expected")
        return x

    def memcpy(self, s, dst, src, n):
        n = z3.simplify(n)
        if not z3.is_int_value(n):
            raise Unsupported("memcpy of symbolic size")
        n = n.as_long()
        if isinstance(src, Iter):
            src = self.iter_deref(s, src)
        if src.obj is not None and src.obj.startswith("@"):
            self.init_global(s, src.obj)
        g = self.gather(s, src, n)
        if not dst.steps:
            s.drop(dst.obj, dst.off, dst.off + n)
        for o, v in g.items():
            self.write(s, dst.add(o), v)

    def mathfn(self, s, fn, xs):
        x = xs[0]
        if fn == "sqrt":
            xv = z3.simplify(x)
            if z3.is_rational_value(xv):
                import math
                from fractions import Fraction
                q = Fraction(xv.numerator_as_long(), xv.denominator_as_long())
                if q >= 0:
                    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
                    if a * a == q.numerator and b * b == q.denominator:
                        return z3.RealVal(Fraction(a, b))
            return smt.fn_sqrt(z3.simplify(x))
        if fn == "exp":
            return smt.fn_exp(x)
        if fn == "log":
            if z3.is_rational_value(z3.simplify(x)) and z3.simplify(x).as_fraction() == 1:
                return z3.RealVal(0)
            return smt.fn_log(x)
        if fn == "pow":
            y = z3.simplify(xs[1])
            if z3.is_rational_value(y) and y.denominator_as_long() == 1:
                k = y.numerator_as_long()
                if 0 <= k <= 8:
                    r = z3.RealVal(1)
                    for _ in range(k):
                        r = r * x
                    return r
                if -8 <= k < 0:
                    r = z3.RealVal(1)
                    for _ in range(-k):
                        r = r * x
                    return 1 / r
            if z3.is_rational_value(y) and str(y) == "1/2":
                return smt.fn_sqrt(x)
            return smt.fn_pow(x, xs[1])
        if fn == "floor":
            return z3.ToReal(z3.ToInt(x))
        if fn == "ceil":
            return -z3.ToReal(z3.ToInt(-x))
        if fn == "trunc":
            return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
        if fn in ("rint", "nearbyint"):
            return z3.ToReal(smt.fn_rint(x))
        if fn in ("fabs",):
            return z3.If(x >= 0, x, -x)
        if fn in ("maxnum", "fmax"):
            return z3.If(x >= xs[1], x, xs[1])
        if fn in ("minnum", "fmin"):
            return z3.If(x <= xs[1], x, xs[1])
        return smt.uf("fn_" + fn, *([REAL] * (len(xs) + 1)))(*xs)


class LoopCtx:
    def __init__(self, ex, entry, M, where, f, hdr):
        self.ex, self.entry, self.M, self.where, self.f, self.hdr = ex, entry, M, where, f, hdr

    def cell(self, obj, off):
        return lambda s: s.mem[obj].get(off)

    def mods(self):
        for (obj, off), how in sorted(self.M.items(), key=str):
            if how == "havoc":
                yield obj, off, self.entry.mem[obj].get(off)

    def of(self, cls):
        """modified cells holding values of the class"""
        out = []
        for obj, off, v in self.mods():
            if isinstance(v, cls):
                out.append(("%s.%d" % (obj, off), self.cell(obj, off)))
        return out

    def mats(self):
        return [(n, g) for n, g in self.of(Leaf) if g(self.entry).kind == "mat"]

    def constant_mats(self):
        """matrices in reach that the loop does not change"""
        out = []
        for obj in self.ex.visible(self.entry):
            for off, v in self.entry.mem.get(obj, {}).items():
                if isinstance(v, Leaf) and v.kind == "mat" and not v.ks and (obj, off) not in self.M:
                    out.append(("%s.%s" % (obj, off), v.e))
        return out

    def reals(self):
        out = []
        for n, g in self.of(Leaf):
            if g(self.entry).kind == "f64":
                out.append((n, lambda s, g=g: g(s).e))
        return out

    def bools(self):
        out = []
        for n, g in self.of(Leaf):
            if g(self.entry).kind == "bool":
                out.append((n, lambda s, g=g: g(s).e))
            elif g(self.entry).kind == "i8":
                out.append((n, lambda s, g=g: g(s).e != 0))
        return out

    def ints(self):
        """position-like quantities that change in the loop"""
        out = []
        for obj, off, v in self.mods():
            c = self.cell(obj, off)
            nm = "%s.%d" % (obj, off)
            if isinstance(v, Iter):
                out.append((nm + ".pos", lambda s, c=c: c(s).pos))
            elif isinstance(v, Leaf) and v.kind in ("i32", "i64"):
                out.append((nm, lambda s, c=c: c(s).e))
            elif isinstance(v, Vec):
                out.append((nm + ".len", lambda s, c=c: c(s).n.e))
        return out

    def bounds(self):
        """loop-constant integers plus lengths of modified containers"""
        out = []
        seen = set()

        def add(nm, e):
            k = e.sexpr()
            if k not in seen and len(out) < 40:
                seen.add(k)
                out.append((nm, lambda s, e=e: e))
        vis = self.ex.visible(self.entry)
        for obj in vis:
            cells = self.entry.mem.get(obj, {})
            for off, v in cells.items():
                if not isinstance(off, int):
                    continue
                if (obj, off) in self.M:
                    continue
                self._bnd(add, "%s.%s" % (obj, off), v)
        for it in list(self.of(Iter)):
            c = it[1](self.entry)
            try:
                node = self.ex.node_at(self.entry, c.c)
            except Unsupported:
                continue
            if isinstance(node, Vec):
                add("len(%s)" % (c.c,), node.n.e)
            elif isinstance(node, Dict):
                add("size(%s)" % (c.c,), smt.ordfns(node.dom.e.sort().domain())[2](node.dom.e))
        return out

    def _bnd(self, add, nm, v):
        if isinstance(v, Vec) and not v.n.ks:
            add("len " + nm, v.n.e)
        elif isinstance(v, Dict) and not v.dom.ks:
            add("size " + nm, smt.ordfns(v.dom.e.sort().domain())[2](v.dom.e))
        elif isinstance(v, Leaf) and not v.ks:
            if v.kind in ("i64", "i32"):
                add(nm, v.e)
            elif v.kind == "mat":
                add("rows " + nm, smt.rows(v.e))
                add("cols " + nm, smt.cols(v.e))
        elif isinstance(v, Iter):
            add(nm + ".pos", v.pos)

    def positions(self):
        """modified ints plus loop-constant ints that could serve as positions (outer-loop counters)"""
        return self.ints()


def _visible(self, st):
    """objects reachable from the current frame's registers and from spec arguments"""
    seen = []
    ss = set()
    work = [v.obj for v in st.regs.values() if isinstance(v, Ptr) and v.obj]
    work += list(self.opts.get("roots", []))
    while work:
        o = work.pop(0)
        if o in ss or o not in st.mem:
            continue
        ss.add(o)
        seen.append(o)
        for v in st.mem[o].values():
            if isinstance(v, Ptr) and v.obj:
                work.append(v.obj)
            elif isinstance(v, Iter):
                work.append(v.c.obj)
            elif isinstance(v, LV):
                pass
    return seen


Engine.visible = _visible

PATTERNS = []


def pattern(rx):
    def deco(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return deco


MAXLEN = 1 << 40


def in_range(e, w):
    return z3.And(e >= -(1 << (w - 1)), e <= (1 << (w - 1)) - 1)


def wrap_int(v, w):
    m = 1 << w
    v %= m
    return v - m if v >= m // 2 else v


def tobool(x):
    if isinstance(x, Leaf):
        x = x.e
    if z3.is_bool(x):
        return x
    if z3.is_expr(x):
        return bool_of_int(x)
    raise Unsupported("bool operand %r" % (x,))


def bool_of_int(x):
    # If(b,1,0) -> b
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        c, t, e = x.children()
        if z3.is_int_value(t) and z3.is_int_value(e):
            if t.as_long() == 1 and e.as_long() == 0:
                return c
    if z3.is_int_value(x):
        return z3.BoolVal(x.as_long() % 2 == 1)
    return x != 0


def real_const(x):
    from fractions import Fraction
    # decimal literals are taken at face value when they round-trip, otherwise exact binary value
    fr = Fraction(repr(x))
    return z3.RealVal(str(fr))


def at_simpl(m, i, j):
    """at(M,i,j) with structural simplification of stores and common expressions"""
    return smt.at(m, i, j)
