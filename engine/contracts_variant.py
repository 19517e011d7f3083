"""mapbox::util::variant as a tagged product: type_index plus one payload slot per alternative.
Assumed: the library's construction, assignment, visitation and unchecked access follow its documentation
(alternative k of n is stored with type_index n-1-k)."""
import z3
import cxx
import ir
from trees import *
from exec import contract, Engine
from contracts_std import take, conv

VK = "mapbox::util::variant"
SLOT = 1 << 20


def alts(t):
    return t.args


def slot(k):
    return SLOT * (k + 1)


def fresh_variant(ex, st, ty, tag, ks=()):
    n = len(ty.args)
    d = {}
    idx = Leaf("i32", z3.Const(fresh_name(tag + ".which"), lift(ks, INT)), ks)
    if not ks and st is not None:
        st.assume(z3.And(idx.e >= 0, idx.e < n))
    d[0] = idx
    for k, a in enumerate(ty.args):
        s = ex.fresh(st, a, "%s.alt%d" % (tag, k), ks)
        if isinstance(s, Struct):
            for o, x in s.d.items():
                d[slot(k) + o] = x
        else:
            d[slot(k)] = s
    return Struct(d, ty)


Engine.fresh_variant = fresh_variant


def alt_index(vt, t):
    for k, a in enumerate(vt.args):
        if a == t:
            return k
    return None


def copy_payload(ex, st, dst, src, t):
    """object copy of an alternative of type t"""
    proto = ex.fresh(None, t, "vproto")
    n = take(ex, st, src, proto)
    if isinstance(n, Struct):
        for o, x in n.d.items():
            ex.write(st, dst.add(o), x)
    else:
        ex.write(st, dst, n)


def put_variant(ex, st, dst, vt, node):
    for o, x in node.d.items():
        ex.write(st, dst.add(o), x)


def read_variant(ex, st, src, vt):
    proto = fresh_variant(ex, None, vt, "vcopy")
    return take(ex, st, src, proto)


def ensure_slots(ex, st, dst, vt, keep=()):
    """uninitialised storage gets arbitrary payloads so that every slot exists"""
    fresh = fresh_variant(ex, None, vt, "vuninit")
    for o, x in fresh.d.items():
        try:
            cur = ex.node_at(st, dst.add(o))
        except Unsupported:
            cur = None
        if cur is None or isinstance(cur, Undef):
            ex.write(st, dst.add(o), x)


def construct(c, vt, dst, src, pty):
    ex, st = c.ex, c.st
    t = cxx.parse_type(pty)
    if t.k == "ptr":
        raise Unsupported("variant from pointer")
    if t == vt:
        put_variant(ex, st, dst, vt, read_variant(ex, st, src, vt))
        return [(st, None)]
    k = alt_index(vt, t)
    if k is None:
        return NotImplemented
    ensure_slots(ex, st, dst, vt)
    copy_payload(ex, st, dst.add(slot(k)), src, t)
    ex.write(st, dst, Leaf("i32", z3.IntVal(len(vt.args) - 1 - k)))
    return [(st, None)]


@contract(VK + "::variant")
def _ctor(c):
    vt = c.cls()
    if len(c.args) == 1:
        ex, st, dst = c.ex, c.st, c.args[0]
        ensure_slots(ex, st, dst, vt)
        z = ex.default(st, vt.args[0])
        if isinstance(z, Struct):
            for o, x in z.d.items():
                ex.write(st, dst.add(slot(0) + o), x)
        else:
            ex.write(st, dst.add(slot(0)), z)
        run_default_ctor(c, dst.add(slot(0)), vt.args[0])
        ex.write(st, dst, Leaf("i32", z3.IntVal(len(vt.args) - 1)))
        return [(st, None)]
    if len(c.args) > 2 or not c.params:
        return NotImplemented
    return construct(c, vt, c.args[0], c.args[1], c.params[0])


def run_default_ctor(c, p, t):
    """class alternatives: run the default constructor compiled for it, if there is one"""
    if t.k != "named":
        return
    ex = c.ex
    base = t.name.split("::")[-1]
    for nm in ex.mod.by_dem:
        if nm == "%s::%s()" % (t.name, base):
            outs = ex.run_fn(c.st, ex.mod.by_dem[nm], [p])
            if len(outs) != 1:
                raise Unsupported("branching default constructor")
            s = outs[0][0]
            if s is not c.st:
                c.st.__dict__.update(s.__dict__)
            return


@contract(VK + "::operator=")
def _assign(c):
    vt = c.cls()
    r = construct(c, vt, c.args[0], c.args[1], c.params[0])
    if r is NotImplemented:
        return r
    return c.ret(c.args[0])


@contract(VK + "::~variant")
def _dtor(c):
    return [(c.st, None)]


@contract(VK + "::get_unchecked")
def _getu(c):
    vt = c.cls()
    t = cxx.parse_targ(c.comps[-1][1][0])
    k = alt_index(vt, t)
    if k is None:
        return NotImplemented
    return c.ret(c.args[0].add(slot(k)))


@contract(VK + "::get")
def _get(c):
    vt = c.cls()
    t = cxx.parse_targ(c.comps[-1][1][0])
    k = alt_index(vt, t)
    if k is None:
        return NotImplemented
    ti = c.ex.node_at(c.st, c.args[0]).e
    c.ex.oblige(c.st, "variant holds the requested alternative", ti == len(vt.args) - 1 - k)
    return c.ret(c.args[0].add(slot(k)))
