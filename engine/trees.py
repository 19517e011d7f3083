"""Symbolic values: scalars are z3 terms, containers are trees of z3 arrays.

 ints    : mathematical Int in the signed canonical range of their width
 double  : Real (machine floating point is treated as mathematical; listed assumption)
 vector  : (length, element tree lifted over Int)
 map/set : (domain predicate over keys, value tree lifted over keys); iteration order is
           given by uninterpreted nth/idx/size over the domain with the sorted-sequence axioms
 Eigen   : terms of the uninterpreted sort Mat
"""
import itertools
import z3

INT = z3.IntSort()
REAL = z3.RealSort()
BOOL = z3.BoolSort()
MAT = z3.DeclareSort("Mat")
OPQ = z3.DeclareSort("Opq")

_ctr = itertools.count()


def fresh_name(p):
    return "%s!%d" % (p, next(_ctr))


class Unsupported(Exception):
    """construct outside the verifier's reach: the run is undecided, never a violation"""


KSORT = {"f64": REAL, "mat": MAT, "str": REAL, "opq": OPQ, "bool": BOOL, "real": REAL}


def ksort(kind):
    if kind in KSORT:
        return KSORT[kind]
    if kind[0] in "iu" and kind[1:].isdigit():
        return INT
    raise Unsupported("no sort for " + kind)


def lift(ks, base):
    s = base
    for k in reversed(ks):
        s = z3.ArraySort(k, s)
    return s


def ksize(kind):
    if kind[0] in "iu" and kind[1:].isdigit():
        return max(1, int(kind[1:]) // 8)
    if kind == "bool":
        return 1
    return {"f64": 8, "mat": 24, "str": 32}.get(kind, 8)


class Node:
    pass


class Leaf(Node):
    __slots__ = ("kind", "e", "ks")

    def __init__(self, kind, e, ks=()):
        self.kind, self.e, self.ks = kind, e, ks

    def __repr__(self):
        return "%s:%s" % (self.kind, self.e)


class Struct(Node):
    __slots__ = ("d", "ty")

    def __init__(self, d, ty=None):
        self.d = d
        self.ty = ty


class Vec(Node):
    __slots__ = ("n", "el", "ty")

    def __init__(self, n, el, ty):
        self.n, self.el, self.ty = n, el, ty     # n: Leaf i64


class Dict(Node):
    """std::map (val is a node lifted over K; voff its offset in the pair) or std::set (val None)"""
    __slots__ = ("dom", "val", "kkind", "voff", "ty")

    def __init__(self, dom, val, kkind, voff, ty):
        self.dom, self.val, self.kkind, self.voff, self.ty = dom, val, kkind, voff, ty


class Ptr:
    __slots__ = ("obj", "off", "steps")

    def __init__(self, obj, off=0, steps=()):
        self.obj, self.off, self.steps = obj, off, steps

    def add(self, n):
        if n == 0:
            return self
        if self.obj is None:
            raise Unsupported("arithmetic on null")
        if self.steps:
            k, i, o = self.steps[-1]
            return Ptr(self.obj, self.off, self.steps[:-1] + ((k, i, o + n),))
        return Ptr(self.obj, self.off + n)

    def step(self, k, i):
        return Ptr(self.obj, self.off, self.steps + ((k, i, 0),))

    def __repr__(self):
        return "&%s+%s%s" % (self.obj, self.off, "".join("[%s:%s]+%s" % s for s in self.steps))

    def key(self):
        return (self.obj, self.off, tuple((k, i.sexpr() if hasattr(i, "sexpr") else str(i), o) for k, i, o in self.steps))


NULL = Ptr(None)


class Iter:
    """iterator into a container: kind 'v' (vector), 'm' (map/set)"""
    __slots__ = ("kind", "c", "pos", "rev")

    def __init__(self, kind, c, pos, rev=False):
        self.kind, self.c, self.pos, self.rev = kind, c, pos, rev

    def __repr__(self):
        return "it(%s,%s)" % (self.c, self.pos)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Agg:
    """first-class aggregate / coerced bytes: {reloff: value}"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class LV:
    """Eigen lvalue expression (block, diagonal, transpose of an lvalue ...)"""
    __slots__ = ("base", "kind", "p", "val")

    def __init__(self, base, kind, p, val=None):
        self.base, self.kind, self.p, self.val = base, kind, p, val


class PyObj:
    """any other opaque verifier-level object stored in memory"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d


# ------------------------------------------------------------ tree ops
def tmap(f, *ns):
    a = ns[0]
    if isinstance(a, Leaf):
        return f(*ns)
    if isinstance(a, Struct):
        keys = set(a.d)
        for b in ns[1:]:
            if not isinstance(b, Struct):
                raise Unsupported("tree shape")
            keys &= set(b.d)
        return Struct({k: tmap(f, *[n.d[k] for n in ns]) for k in sorted(keys)}, a.ty)
    if isinstance(a, Vec):
        return Vec(tmap(f, *[n.n for n in ns]), tmap(f, *[n.el for n in ns]), a.ty)
    if isinstance(a, Dict):
        return Dict(tmap(f, *[n.dom for n in ns]), None if a.val is None else tmap(f, *[n.val for n in ns]),
                    a.kkind, a.voff, a.ty)
    raise Unsupported("value of kind %s cannot live in a container" % type(a).__name__)


def sel(n, idx):
    return tmap(lambda l: Leaf(l.kind, z3.Select(l.e, idx), l.ks[1:]), n)


def sto(n, idx, sub):
    return tmap(lambda l, s: Leaf(l.kind, z3.Store(l.e, idx, coerce(s, l)), l.ks), n, sub)


def coerce(s, l):
    if not isinstance(s, Leaf):
        raise Unsupported("storing %r in container" % (s,))
    return s.e


def ite(c, a, b):
    return tmap(lambda x, y: x if x.e.eq(y.e) else Leaf(x.kind, z3.If(c, x.e, y.e), x.ks), a, b)


def leaves(n):
    if isinstance(n, Leaf):
        yield n
    elif isinstance(n, Struct):
        for k in sorted(n.d):
            yield from leaves(n.d[k])
    elif isinstance(n, Vec):
        yield n.n
        yield from leaves(n.el)
    elif isinstance(n, Dict):
        yield n.dom
        if n.val is not None:
            yield from leaves(n.val)
    else:
        raise Unsupported("leaves of %s" % type(n).__name__)


def freshen(n, tag):
    return tmap(lambda l: Leaf(l.kind, z3.Const(fresh_name(tag), l.e.sort()), l.ks), n)


def same(a, b):
    """syntactic identity of stored values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Ptr):
        return a.key() == b.key()
    if isinstance(a, Iter):
        return a.kind == b.kind and a.c.key() == b.c.key() and a.pos.eq(b.pos)
    if isinstance(a, FnPtr):
        return a.name == b.name
    if isinstance(a, Node):
        try:
            la, lb = list(leaves(a)), list(leaves(b))
        except Unsupported:
            return False
        return len(la) == len(lb) and all(x.e.eq(y.e) for x, y in zip(la, lb))
    if isinstance(a, Agg):
        return set(a.d) == set(b.d) and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, PyObj):
        return a.kind == b.kind and set(a.d) == set(b.d) and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, LV):
        return a.kind == b.kind and same(a.base, b.base) and str(a.p) == str(b.p)
    if z3.is_expr(a):
        return a.eq(b)
    return a == b
