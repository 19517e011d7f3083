"""Assumed contracts of the C++ standard library (validated at run time by the replay
harnesses, never proved here)."""
import re
import sys
import z3
import cxx
import smt
import ir
from trees import *
from exec import contract, pattern, Engine, Call, tobool, MAXLEN, in_range, CONTRACTS, st_store_value

V = "std::vector::"


# ------------------------------------------------------------------ helpers
def vec(c, p=None):
    p = c.args[0] if p is None else p
    n = c.ex.node_at(c.st, p)
    if not isinstance(n, Vec):
        raise Unsupported("vector expected at %r (%s)" % (p, c.key))
    return n


def setv(c, n, p=None, st=None):
    c.ex.write(st or c.st, c.args[0] if p is None else p, n)


def take(ex, st, p, proto):
    """copy the object at p shaped like proto (one element tree)"""
    if isinstance(p, Iter):
        p = ex.iter_deref(st, p)
    if isinstance(proto, Struct):
        d = {}
        for o, sub in proto.d.items():
            d[o] = conv(ex, st, ex.node_at(st, p.add(o)), sub)
        return Struct(d, proto.ty)
    return conv(ex, st, ex.node_at(st, p), proto)


def conv(ex, st, n, proto):
    if n is None or isinstance(n, Undef):
        return freshen_at0(st, proto)
    if isinstance(proto, Leaf):
        if isinstance(n, LV):
            n = Leaf("mat", ex.lvval(st, n))
        if not isinstance(n, Leaf):
            raise Unsupported("scalar expected, got %s" % type(n).__name__)
        if n.kind == proto.kind:
            return n
        if proto.kind == "bool" and n.kind[0] == "i":
            return Leaf("bool", tobool(n.e))
        if n.kind == "bool" and proto.kind[0] == "i":
            return Leaf(proto.kind, z3.If(n.e, z3.IntVal(1), z3.IntVal(0)))
        raise Unsupported("kind %s stored as %s" % (n.kind, proto.kind))
    return n


def freshen_at0(st, proto):
    def f(l):
        s = l.e.sort()
        for _ in l.ks:
            pass
        return Leaf(l.kind, z3.Const(fresh_name("u"), s), l.ks)
    return tmap(f, proto)


def elem_proto(v):
    """an element-shaped tree (select at 0)"""
    return sel(v.el, z3.IntVal(0))


def give(ex, st, p, n):
    if isinstance(n, Struct):
        for o, x in n.d.items():
            ex.write(st, p.add(o), x)
    else:
        ex.write(st, p, n)


def i64(e):
    return Leaf("i64", e)


def num(x):
    if isinstance(x, Leaf):
        x = x.e
    if z3.is_expr(x):
        return x
    raise Unsupported("integer expected: %r" % (x,))


def size_arg(c, i):
    return c.ex.tou(c.st, num(c.args[i]), 64)


def newvec(c, n):
    """vector of type c.cls() with length term n and fresh contents"""
    ty = c.cls()
    v = c.ex.fresh(None, ty, "vec")
    return Vec(i64(n), v.el, ty)


def as_iter(ex, st, a):
    if isinstance(a, Iter):
        return a
    if isinstance(a, Ptr):
        if a.steps and a.steps[-1][0] == "v" and a.steps[-1][2] == 0:
            k, i, o = a.steps[-1]
            # is it an address of an iterator object or a raw pointer into storage?
            n = None
            try:
                n = ex.node_at(st, a)
            except Unsupported:
                pass
            if isinstance(n, Iter):
                return n
            return Iter("v", Ptr(a.obj, a.off, a.steps[:-1]), i)
        n = ex.node_at(st, a)
        if isinstance(n, Iter):
            return n
        if isinstance(n, Ptr):
            return as_iter(ex, st, n)
        if isinstance(n, PyObj):
            return n
    if isinstance(a, PyObj):
        return a
    if isinstance(a, Agg) and 0 in a.d:
        return as_iter(ex, st, a.d[0])
    raise Unsupported("iterator expected: %r" % (a,))


def axiom_range(st, c, lo, hi):
    pass


# ------------------------------------------------------------------ allocators, no-ops
def noop(c):
    return c.ret(c.args[0] if (c.args and c.rt.k == "ptr" and c.sret is None) else None)


for k in ("std::allocator::allocator", "std::allocator::~allocator", "std::__new_allocator::__new_allocator",
          "std::__new_allocator::~__new_allocator", "std::ios_base::Init::Init", "std::ios_base::Init::~Init",
          "operator delete", "operator delete[]", "std::vector::~vector", "std::map::~map", "std::set::~set",
          "std::basic_ostream::operator<<", "std::ostream::operator<<", "std::operator<<", "std::__ostream_insert",
          "std::ostream::flush", "std::flush", "std::vector::reserve", "std::vector::shrink_to_fit",
          "std::__cxx11::basic_string::~basic_string", "std::basic_string::~basic_string"):
    CONTRACTS[k] = noop


@contract("operator new", "operator new[]")
def _new(c):
    return [(c.st, Ptr(c.ex.new_obj(c.st, "heap")))]


@contract("__assert_fail", "abort", "std::terminate", "exit", "__cxa_pure_virtual", "__cxa_rethrow",
          "std::__throw_out_of_range_fmt", "std::__throw_length_error", "std::__throw_bad_optional_access",
          "std::__throw_bad_alloc", "std::__throw_logic_error", "std::__throw_out_of_range",
          "__clang_call_terminate", "std::__throw_bad_array_new_length", "std::__throw_bad_function_call",
          "std::__glibcxx_assert_fail", "__cxa_throw", "std::__throw_bad_variant_access")
def _assert_fail(c):
    ex, st = c.ex, c.st
    ex.throws.append((c.key, st))
    if not ex.allow_throw:
        ex.oblige(st, "unreachable:" + c.key.replace("__", ""), z3.BoolVal(False), "safety")
    return []


@contract("__cxa_allocate_exception")
def _allocexc(c):
    return [(c.st, Ptr(c.ex.new_obj(c.st, "exc")))]


@pattern(r"^std::(runtime_error|logic_error|invalid_argument|out_of_range|domain_error|length_error|exception)::.*")
def _exc(c):
    return noop(c)


# ------------------------------------------------------------------ libm
def _math(name, fn=None):
    @contract(name, "std::" + name)
    def f(c, fn=fn or name):
        if c.key == "std::" + name and c.rt.k != "double":
            return NotImplemented
        xs = []
        for a in c.args:
            a = num(a)
            if z3.is_int(a):
                a = z3.ToReal(a)
            xs.append(a)
        return [(c.st, c.ex.mathfn(c.st, fn, xs))]


for n_ in ("exp", "log", "sqrt", "pow", "floor", "ceil", "fabs", "fmax", "fmin", "sin", "cos", "tan", "acos", "asin",
           "atan2", "atan", "lgamma", "tgamma", "erf", "erfc", "log10", "log1p", "expm1", "hypot", "cosh", "sinh", "tanh",
           "trunc", "round", "fmod", "rint", "nearbyint"):
    _math(n_)


@contract("std::isnan", "std::isinf", "isnan", "isinf", "__isnan", "__isinf")
def _isnan(c):
    return [(c.st, z3.BoolVal(False))]


@contract("std::isfinite", "__finite")
def _isfinite(c):
    return [(c.st, z3.BoolVal(True))]


@contract("std::abs")
def _abs(c):
    x = num(c.args[0])
    return [(c.st, z3.If(x >= 0, x, -x))]


@contract("std::numeric_limits::quiet_NaN")
def _nan(c):
    return [(c.st, z3.Real("NaN_const"))]


@contract("std::numeric_limits::infinity")
def _inf(c):
    return [(c.st, z3.Real("INF"))]


# ------------------------------------------------------------------ vector
@contract(V + "vector")
def _vec_ctor(c):
    ex, st = c.ex, c.st
    ps = c.params
    if ps and ps[-1].startswith("std::allocator"):
        ps = ps[:-1]
    this = c.args[0]
    ty = c.cls()
    if not ps:
        v = newvec(c, z3.IntVal(0))
        ex.write(st, this, v)
        return c.ret(this)
    if len(ps) >= 1 and ps[0].startswith("std::vector<"):
        src = c.args[1]
        n = ex.node_at(st, src)
        if not isinstance(n, Vec):
            raise Unsupported("vector copy of %r" % (n,))
        ex.write(st, this, n)
        if ps[0].endswith("&&"):
            ex.write(st, src, Vec(i64(z3.IntVal(0)), n.el, n.ty))
        return c.ret(this)
    if len(ps) >= 1 and ps[0].startswith("unsigned long"):
        n = size_arg(c, 1)
        ex.oblige(st, "vector-size-valid", n <= MAXLEN, "safety") if False else None
        v = newvec(c, n)
        if len(ps) == 2:
            e = take(ex, st, c.args[2], elem_proto(v))
        else:
            e = ex.default(st, ty.args[0])
        v = fill(st, v, e)
        ex.write(st, this, v)
        return c.ret(this)
    if len(ps) >= 1 and ps[0].startswith("std::initializer_list"):
        il = c.args[1]
        arr, n = il_parts(c, il, c.args[2] if len(c.args) > 2 else None)
        v = newvec(c, z3.IntVal(n))
        v = fill_fixed(ex, st, v, arr, n, ty.args[0])
        ex.write(st, this, v)
        return c.ret(this)
    if len(ps) >= 2:
        # iterator range
        a, b = as_iter(ex, st, c.args[1]), as_iter(ex, st, c.args[2])
        v = newvec(c, z3.IntVal(0))
        v = append_range(ex, st, v, a, b)
        ex.write(st, this, v)
        return c.ret(this)
    raise Unsupported("vector ctor " + c.dem[:150])


def il_parts(c, il, extra):
    """initializer_list passed either as two registers (ptr,len), an Agg or pointer to object"""
    ex, st = c.ex, c.st
    if isinstance(il, Ptr) and extra is not None and z3.is_expr(extra):
        n = z3.simplify(extra)
        return il, n.as_long()
    if isinstance(il, Ptr):
        p = ex.node_at(st, il)
        n = ex.node_at(st, il.add(8))
        return p, z3.simplify(n.e).as_long()
    if isinstance(il, Agg):
        return il.d[0], z3.simplify(il.d[8].e).as_long()
    raise Unsupported("initializer_list %r" % (il,))


def fill_fixed(ex, st, v, arr, n, ety):
    sz = ex.csize(ety)
    pr = elem_proto(v)
    el = v.el
    for i in range(n):
        el = sto(el, z3.IntVal(i), take(ex, st, arr.add(i * sz), pr))
    return Vec(v.n, el, v.ty)


def fill(st, v, e):
    """all elements equal e"""
    def f(l, x):
        return Leaf(l.kind, z3.K(l.ks[0], x.e), l.ks)
    return Vec(v.n, tmap(f, v.el, e), v.ty)


def _is_whole(ex, st, a, b, node):
    z = z3.simplify(a.pos)
    return z3.is_int_value(z) and z.as_long() == 0


def append_range(ex, st, v, a, b):
    """v ++ [a,b)"""
    n0 = v.n.e
    zero = z3.is_int_value(z3.simplify(n0)) and z3.simplify(n0).as_long() == 0
    if isinstance(a, PyObj) or isinstance(b, PyObj):
        raise Unsupported("range of special iterators")
    cnt = z3.simplify(b.pos - a.pos)
    node = ex.node_at(st, a.c)
    if a.kind == "v":
        src_at = lambda j: sel(node.el, j)
    elif a.kind == "m":
        S = node.dom.e.sort().domain()
        nth = smt.ordfns(S)[0]
        src_at = lambda j: ex.elem(node, "m", nth(node.dom.e, j))
    else:
        raise Unsupported("range kind")
    probe = z3.Int(fresh_name("j"))
    s0 = src_at(probe)
    if a.kind == "m" and node.val is None:
        s0 = s0.d[0]
        g0 = src_at
        src_at = lambda j: g0(j).d[0]
    a0 = z3.simplify(a.pos)
    if zero and z3.is_int_value(a0) and a0.as_long() == 0 and a.kind == "v" and shape_eq(v.el, node.el):
        return Vec(i64(cnt), node.el, v.ty)
    new = freshen(v, "app")
    j = z3.Int("rj")
    lo = n0

    def fact(nl, ol, sl):
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n0), z3.Select(nl.e, j) == z3.Select(ol.e, j)),
                            patterns=[z3.Select(nl.e, j)])) if not zero else None
        return nl
    tmap(lambda nl, ol: fact(nl, ol, None), new.el, v.el)
    js = src_at(j - n0 + a.pos)
    ety = v.ty.args[0] if v.ty is not None and v.ty.args else None
    if ety is not None and ety.k == "named" and ety.name == "mapbox::util::variant" and a.kind == "v" and node.ty is not None \
            and node.ty.args[0] != ety:
        import contracts_variant as CV
        k = CV.alt_index(ety, node.ty.args[0])
        if k is None:
            raise Unsupported("range element conversion into a variant")
        pr = sel(new.el, j)          # the other payload slots stay arbitrary
        d = dict(pr.d)
        for o, x in (js.d.items() if isinstance(js, Struct) else ((0, js),)):
            d[CV.slot(k) + o] = x
        d[0] = Leaf("i32", z3.IntVal(len(ety.args) - 1 - k))
        js = Struct(d, ety)
    njs = sel(new.el, j)
    if isinstance(njs, Struct) != isinstance(js, Struct):
        raise Unsupported("range element conversion")

    def f2(nl, sl):
        if nl.e.sort() != sl.e.sort():
            raise Unsupported("range element conversion")
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= n0, j < n0 + cnt), nl.e == sl.e), patterns=[nl.e]))
        return nl
    tmap(f2, njs, js)
    if a.kind == "m":                # the same facts, found from the elements of the source
        trig = nth(node.dom.e, j)
        tmap(lambda nl, sl: st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= a.pos, j < a.pos + cnt), nl.e == sl.e), patterns=[trig])) or nl,
             sel(new.el, j - a.pos + n0), src_at(j))
    st.assume(z3.And(n0 + cnt >= 0))
    return Vec(i64(z3.simplify(n0 + cnt)), new.el, v.ty)


def shape_eq(a, b):
    try:
        la, lb = list(leaves(a)), list(leaves(b))
    except Unsupported:
        return False
    return len(la) == len(lb) and all(x.e.sort() == y.e.sort() and x.kind == y.kind for x, y in zip(la, lb))


@contract(V + "operator=")
def _vec_assign(c):
    ex, st = c.ex, c.st
    if c.params and c.params[0].startswith("std::initializer_list"):
        ty = c.cls()
        arr, n = il_parts(c, c.args[1], c.args[2] if len(c.args) > 2 else None)
        ex.write(st, c.args[0], fill_fixed(ex, st, newvec(c, z3.IntVal(n)), arr, n, ty.args[0]))
        return c.ret(c.args[0])
    n = ex.node_at(st, c.args[1])
    if not isinstance(n, Vec):
        raise Unsupported("vector assign")
    ex.write(st, c.args[0], n)
    if c.params[0].endswith("&&") and c.args[0].key() != c.args[1].key():
        ex.write(st, c.args[1], Vec(i64(z3.IntVal(0)), n.el, n.ty))
    return c.ret(c.args[0])


def veclen(c, v):
    if v.n.ks:
        raise Unsupported("lifted length")
    if not z3.is_int_value(v.n.e):
        c.st.assume(v.n.e >= 0)
        c.st.assume(v.n.e <= MAXLEN)
    return v.n.e


@contract(V + "size")
def _vec_size(c):
    return [(c.st, veclen(c, vec(c)))]


@contract(V + "empty")
def _vec_empty(c):
    return [(c.st, veclen(c, vec(c)) == 0)]


@contract(V + "capacity", V + "max_size")
def _vec_cap(c):
    v = vec(c)
    e = z3.Int(fresh_name("cap"))
    c.st.assume(e >= veclen(c, v))
    c.st.assume(e < (1 << 61))
    return [(c.st, e)]


def bounds(c, v, i, what):
    n = veclen(c, v)
    c.ex.oblige(c.st, "in-bounds:" + what, z3.And(i >= 0, i < n), "safety")


@contract(V + "operator[]")
def _vec_idx(c):
    v = vec(c)
    i = num(c.args[1])
    bounds(c, v, i, "vector[]")
    return [(c.st, c.args[0].step("v", i))]


@contract(V + "at")
def _vec_at(c):
    v = vec(c)
    i = num(c.args[1])
    bounds(c, v, i, "vector.at")
    return [(c.st, c.args[0].step("v", i))]


@contract(V + "front")
def _vec_front(c):
    v = vec(c)
    bounds(c, v, z3.IntVal(0), "front")
    return [(c.st, c.args[0].step("v", z3.IntVal(0)))]


@contract(V + "back")
def _vec_back(c):
    v = vec(c)
    i = z3.simplify(veclen(c, v) - 1)
    bounds(c, v, i, "back")
    return [(c.st, c.args[0].step("v", i))]


@contract(V + "data")
def _vec_data(c):
    vec(c)
    return [(c.st, c.args[0].step("v", z3.IntVal(0)))]


@contract(V + "begin", V + "cbegin")
def _vec_begin(c):
    vec(c)
    return c.ret(Iter("v", c.args[0], z3.IntVal(0)))


@contract(V + "end", V + "cend")
def _vec_end(c):
    return c.ret(Iter("v", c.args[0], veclen(c, vec(c))))


@contract(V + "clear")
def _vec_clear(c):
    v = vec(c)
    setv(c, Vec(i64(z3.IntVal(0)), v.el, v.ty))
    return [(c.st, None)]


@contract(V + "pop_back")
def _vec_pop(c):
    v = vec(c)
    bounds(c, v, z3.IntVal(0), "pop_back")
    setv(c, Vec(i64(z3.simplify(v.n.e - 1)), v.el, v.ty))
    return [(c.st, None)]


def push(c, st, v, e):
    n = veclen(c, v)
    el = sto(v.el, n, e)
    if c.ex.opts.get("name_push"):
        new = freshen(v.el, "psh")
        j = z3.Int("rj")

        def f(nl, ol, x, sx):
            st.assume(nl.e == sx.e)
            st.assume(z3.ForAll([j], z3.Select(nl.e, j) == z3.If(j == n, x.e, z3.Select(ol.e, j)),
                                patterns=[z3.Select(ol.e, j)]))
            return nl
        el = tmap(f, new, v.el, e, el)
    c.ex.write(st, c.args[0], Vec(i64(z3.simplify(n + 1)), el, v.ty))


@contract(V + "push_back")
def _vec_push(c):
    v = vec(c)
    a = c.args[1]
    e = Leaf("bool", tobool(a)) if z3.is_expr(a) and a.sort() == BOOL or not isinstance(a, Ptr) and isinstance(elem_proto(v), Leaf) and elem_proto(v).kind == "bool" else take(c.ex, c.st, a, elem_proto(v))
    push(c, c.st, v, e)
    return [(c.st, None)]


def build(c, ety, name, args, rx):
    """run the real element constructor behind an emplace: find allocator_traits::construct in the callee tree"""
    ex, st = c.ex, c.st
    target = find_callee(ex, name, rx)
    if target is None:
        r = build_ctor(c, ety, name, args)
        if r is not None:
            return r
        raise Unsupported("constructor behind " + c.dem[:120])
    o = ex.new_obj(st, "tmp")
    al = ex.new_obj(st, "alc")
    res = []
    for s2, _ in ex.run_fn(st, target, [Ptr(al), Ptr(o)] + args):
        res.append((s2, Ptr(o)))
    return res


def build_ctor(c, ety, name, args):
    """construct() inlined into the caller: call the element's constructor found in the callee tree"""
    from exec import class_type
    ex, st = c.ex, c.st
    if ety.k != "named":
        return None
    base = ety.name.split("::")[-1]
    g = find_callee(ex, name, r"(^|::)%s::%s(<.*>)?\(" % (re.escape(base), re.escape(base)) if not ety.args else r"%s<.*>::%s(<.*>)?\(" % (re.escape(base), re.escape(base)), depth=6)
    if g is None:
        return None
    key, comps, params = cxx.parse_fn(ex.mod.dem[g])
    if class_type(comps) != ety or len(params) != len(args):
        return None
    pars = ex.mod.func(g).params
    o = ex.new_obj(st, "tmp")
    av = []
    for p, a, ps in zip(pars[1:], args, params):
        if ps.rstrip().endswith(("&", "*")) or "byval" in p[2]:
            av.append(a)
        else:
            t = cxx.parse_type(ps)
            if t.k == "named":
                return None
            av.append(ex.load(st, a, p[0]) if isinstance(a, Ptr) else a)
    return [(s2, Ptr(o)) for s2, _ in ex.run_fn(st, g, [Ptr(o)] + av)]


def find_callee(ex, name, rx, depth=3, seen=None):
    seen = seen if seen is not None else set()
    if name in seen or name not in ex.mod.fn_at or depth < 0:
        return None
    seen.add(name)
    f = ex.mod.func(name)
    subs = []
    for b in f.order:
        for i in f.blocks[b]:
            if i.op in ("call", "invoke") and i.a["f"][0] == "global":
                g = i.a["f"][1]
                d = ex.mod.dem.get(g, g)
                if re.search(rx, d) and g in ex.mod.fn_at:
                    return g
                subs.append(g)
    for g in subs:
        r = find_callee(ex, g, rx, depth - 1, seen)
        if r:
            return r
    return None


@contract(V + "emplace_back")
def _vec_emplace(c):
    ex, st = c.ex, c.st
    v = vec(c)
    pr = elem_proto(v)
    ety = v.ty.args[0]
    if len(c.args) == 2 and (isinstance(pr, Leaf) and pr.kind != "mat") and z3_kind_ok(ex, st, c.args[1], pr):
        push(c, st, v, take(ex, st, c.args[1], pr))
        v2 = ex.node_at(st, c.args[0])
        return [(st, c.args[0].step("v", z3.simplify(v2.n.e - 1)))]
    if len(c.args) == 2 and str(cxx.parse_type(c.params[0])) == str(ety):
        push(c, st, v, take(ex, st, c.args[1], pr))
        v2 = ex.node_at(st, c.args[0])
        return [(st, c.args[0].step("v", z3.simplify(v2.n.e - 1)))]
    if len(c.args) == 2 and ety.k == "named" and ety.name == "mapbox::util::variant":
        import contracts_variant as CV
        o = ex.new_obj(st, "vtmp")
        r = CV.construct(c, ety, Ptr(o), c.args[1], c.params[0])
        if r is not NotImplemented:
            push(c, st, ex.node_at(st, c.args[0]), take(ex, st, Ptr(o), pr))
            v2 = ex.node_at(st, c.args[0])
            return [(st, c.args[0].step("v", z3.simplify(v2.n.e - 1)))]
    if len(c.args) == 2 and ety.k == "named" and ety.name in ("Eigen::Matrix", "Eigen::Array"):
        import contracts_eigen as CE
        if CE.ismat(c, c.args[1]):
            push(c, st, v, Leaf("mat", CE.val(c, 1)))
            v2 = ex.node_at(st, c.args[0])
            return [(st, c.args[0].step("v", z3.simplify(v2.n.e - 1)))]
    out = []
    for s2, p in build(c, ety, c.name, c.args[1:], r"allocator_traits<.*>::construct<"):
        v2 = ex.node_at(s2, c.args[0])
        e = take(ex, s2, p, pr)
        push(c, s2, v2, e)
        out.append((s2, c.args[0].step("v", v2.n.e)))
    return out


def z3_kind_ok(ex, st, p, pr):
    try:
        n = ex.node_at(st, p)
    except Exception:
        return False
    return isinstance(n, Leaf) and (n.kind == pr.kind or {n.kind, pr.kind} <= {"bool", "i8"})


@contract(V + "resize")
def _vec_resize(c):
    ex, st = c.ex, c.st
    v = vec(c)
    n = size_arg(c, 1)
    n0 = veclen(c, v)
    pr = elem_proto(v)
    e = take(ex, st, c.args[2], pr) if len(c.args) > 2 else ex.default(st, v.ty.args[0])
    z = z3.simplify(n0)
    if z3.is_int_value(z) and z.as_long() == 0:
        setv(c, fill(st, Vec(i64(n), v.el, v.ty), e))
        return [(st, None)]
    new = freshen(v, "rsz")
    j = z3.Int("rj")

    def f(nl, ol, x):
        st.assume(z3.ForAll([j], z3.Select(nl.e, j) == z3.If(z3.And(j >= 0, j < n0), z3.Select(ol.e, j), x.e),
                            patterns=[z3.Select(nl.e, j)]))
        return nl
    tmap(f, new.el, v.el, e)
    setv(c, Vec(i64(n), new.el, v.ty))
    return [(st, None)]


@contract(V + "insert")
def _vec_insert(c):
    ex, st = c.ex, c.st
    v = vec(c)
    it = as_iter(ex, st, c.args[1])
    n0 = veclen(c, v)
    if len(c.args) == 4 and not c.params[1].startswith("unsigned long"):
        a, b = as_iter(ex, st, c.args[2]), as_iter(ex, st, c.args[3])
        atend = not ex.feas.feasible(st.facts, it.pos != n0)
        if not atend:
            raise Unsupported("vector insert range in the middle")
        nv = append_range(ex, st, v, a, b)
        setv(c, nv)
        return c.ret(Iter("v", c.args[0], n0))
    if len(c.args) == 3:
        e = take(ex, st, c.args[2], elem_proto(v))
        new = freshen(v, "ins")
        j = z3.Int("rj")
        p = it.pos
        ex.oblige(st, "in-bounds:insert", z3.And(p >= 0, p <= n0))

        def f(nl, ol, x):
            st.assume(z3.ForAll([j], z3.Select(nl.e, j) == z3.If(j < p, z3.Select(ol.e, j), z3.If(j == p, x.e, z3.Select(ol.e, j - 1))),
                                patterns=[z3.Select(nl.e, j)]))
            return nl
        tmap(f, new.el, v.el, e)
        setv(c, Vec(i64(z3.simplify(n0 + 1)), new.el, v.ty))
        return c.ret(Iter("v", c.args[0], p))
    raise Unsupported("vector insert form")


@contract(V + "erase")
def _vec_erase(c):
    ex, st = c.ex, c.st
    v = vec(c)
    it = as_iter(ex, st, c.args[1])
    n0 = veclen(c, v)
    p = it.pos
    q = as_iter(ex, st, c.args[2]).pos if len(c.args) > 2 else p + 1
    ex.oblige(st, "in-bounds:erase", z3.And(p >= 0, p <= q, q <= n0))
    new = freshen(v, "ers")
    j = z3.Int("rj")

    def f(nl, ol):
        st.assume(z3.ForAll([j], z3.Select(nl.e, j) == z3.If(j < p, z3.Select(ol.e, j), z3.Select(ol.e, j + (q - p))),
                            patterns=[z3.Select(nl.e, j)]))
        return nl
    tmap(f, new.el, v.el)
    setv(c, Vec(i64(z3.simplify(n0 - (q - p))), new.el, v.ty))
    return c.ret(Iter("v", c.args[0], p))


@contract(V + "assign")
def _vec_assignfn(c):
    ex, st = c.ex, c.st
    v = vec(c)
    if c.params[0].startswith("unsigned long"):
        e = take(ex, st, c.args[2], elem_proto(v))
        setv(c, fill(st, Vec(i64(size_arg(c, 1)), v.el, v.ty), e))
        return [(st, None)]
    a, b = as_iter(ex, st, c.args[1]), as_iter(ex, st, c.args[2])
    setv(c, append_range(ex, st, Vec(i64(z3.IntVal(0)), v.el, v.ty), a, b))
    return [(st, None)]


@contract(V + "swap")
def _vec_swap(c):
    a, b = vec(c), vec(c, c.args[1])
    setv(c, b)
    setv(c, a, c.args[1])
    return [(c.st, None)]


@contract("std::swap")
def _swap(c):
    ex, st = c.ex, c.st
    if cxx.parse_type(c.params[0]).k == "named" and cxx.parse_type(c.params[0]).name in ("std::vector", "std::map", "std::set"):
        a, b = ex.node_at(st, c.args[0]), ex.node_at(st, c.args[1])
        ex.write(st, c.args[0], b)
        ex.write(st, c.args[1], a)
        return [(st, None)]
    return NotImplemented


# equality of containers
@contract("std::operator==", "std::operator!=")
def _eqop(c):
    ex, st = c.ex, c.st
    if len(c.params) != 2:
        return NotImplemented
    t = cxx.parse_type(c.params[0])
    if t.k == "named" and t.name in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::_Bit_iterator_base"):
        return _it_cmp(c)
    if t.k == "named" and t.name in ("std::vector", "std::map", "std::set"):
        a, b = ex.node_at(st, c.args[0]), ex.node_at(st, c.args[1])
        e = node_eq(a, b)
        return [(st, z3.Not(e) if c.key.endswith("!=") else e)]
    if t.k == "named" and t.name == "std::string":
        a, b = strval(c, c.args[0]), strval(c, c.args[1])
        return [(st, a != b if c.key.endswith("!=") else a == b)]
    return NotImplemented


def node_eq(a, b):
    """semantic equality of stored values"""
    if isinstance(a, Leaf):
        if a.kind == "mat":
            return mat_eq(a.e, b.e)
        return a.e == b.e
    if isinstance(a, Struct):
        return z3.And([node_eq(a.d[k], b.d[k]) for k in sorted(a.d)])
    if isinstance(a, Vec):
        j = z3.Int(fresh_name("qj"))
        sub = node_eq(sel(a.el, j), sel(b.el, j))
        return z3.And(a.n.e == b.n.e, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n.e), sub)))
    if isinstance(a, Dict):
        S = a.dom.e.sort().domain()
        k = z3.Const(fresh_name("qk"), S)
        e = z3.Select(a.dom.e, k) == z3.Select(b.dom.e, k)
        if a.val is not None:
            e = z3.And(e, z3.Implies(z3.Select(a.dom.e, k), node_eq(sel(a.val, k), sel(b.val, k))))
        return z3.ForAll([k], e)
    raise Unsupported("equality of " + type(a).__name__)


def mat_eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    i, j = z3.Int(fresh_name("qi")), z3.Int(fresh_name("qj"))
    return z3.And(smt.rows(a) == smt.rows(b), smt.cols(a) == smt.cols(b),
                  z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < smt.rows(a), j >= 0, j < smt.cols(a)),
                                               smt.at(a, i, j) == smt.at(b, i, j))))


# ------------------------------------------------------------------ iterators
NI = "__gnu_cxx::__normal_iterator::"


def itcell(c, i=0):
    return as_iter(c.ex, c.st, c.args[i])


@contract(NI + "__normal_iterator")
def _ni_ctor(c):
    ex, st = c.ex, c.st
    if len(c.args) == 1:
        return [(st, None)]
    a = c.args[1]
    n = ex.node_at(st, a) if isinstance(a, Ptr) else a
    it = as_iter(ex, st, n if n is not None else a)
    ex.write(st, c.args[0], it)
    return c.ret(c.args[0])


@contract(NI + "operator*", NI + "operator->", "std::_Rb_tree_iterator::operator*", "std::_Rb_tree_iterator::operator->",
          "std::_Rb_tree_const_iterator::operator*", "std::_Rb_tree_const_iterator::operator->")
def _it_deref(c):
    it = itcell(c)
    ex, st = c.ex, c.st
    node = ex.node_at(st, it.c)
    if isinstance(node, Vec):
        ex.oblige(st, "in-bounds:iterator", z3.And(it.pos >= 0, it.pos < node.n.e), "safety")
    elif isinstance(node, Dict):
        sz = smt.ordfns(node.dom.e.sort().domain())[2](node.dom.e)
        ex.oblige(st, "in-bounds:iterator", z3.And(it.pos >= 0, it.pos < sz), "safety")
    p = ex.iter_deref(st, it)
    return [(st, p)]


@contract(NI + "operator[]")
def _it_idx(c):
    it = itcell(c)
    return [(c.st, c.ex.iter_deref(c.st, Iter(it.kind, it.c, it.pos + num(c.args[1]))))]


def _step(d, post):
    def f(c):
        it = itcell(c)
        n = Iter(it.kind, it.c, z3.simplify(it.pos + d))
        c.ex.write(c.st, c.args[0], n)
        if post:
            return c.ret(it)
        return [(c.st, c.args[0])]
    return f


def _incdec(c):
    d = 1 if c.key.endswith("++") else -1
    post = bool(c.params)
    return _step(d, post)(c)


for k in (NI, "std::_Rb_tree_iterator::", "std::_Rb_tree_const_iterator::"):
    CONTRACTS[k + "operator++"] = _incdec
    CONTRACTS[k + "operator--"] = _incdec


@contract(NI + "operator+", NI + "operator-")
def _it_plus(c):
    it = itcell(c)
    n = num(c.args[1])
    return c.ret(Iter(it.kind, it.c, z3.simplify(it.pos + n if c.key.endswith("+") else it.pos - n)))


@contract(NI + "operator+=", NI + "operator-=")
def _it_pluseq(c):
    it = itcell(c)
    n = num(c.args[1])
    c.ex.write(c.st, c.args[0], Iter(it.kind, it.c, z3.simplify(it.pos + n if c.key.endswith("+=") else it.pos - n)))
    return [(c.st, c.args[0])]


@contract(NI + "base")
def _it_base(c):
    return [(c.st, c.args[0])] if False else [(c.st, Ptr_to_iter(c))]


def Ptr_to_iter(c):
    # returns a reference to the wrapped pointer; we hand out the iterator object itself
    return c.args[0]


def _it_cmp(c):
    a, b = itcell(c, 0), itcell(c, 1)
    if a.c.key() != b.c.key():
        raise Unsupported("comparing iterators of different containers")
    op = c.key.split("operator")[-1]
    e = {"==": lambda: a.pos == b.pos, "!=": lambda: a.pos != b.pos, "<": lambda: a.pos < b.pos, ">": lambda: a.pos > b.pos,
         "<=": lambda: a.pos <= b.pos, ">=": lambda: a.pos >= b.pos}[op]()
    return [(c.st, e)]


for o in ("==", "!=", "<", ">", "<=", ">="):
    CONTRACTS["__gnu_cxx::operator" + o] = _it_cmp


# vector<bool>: bit iterators are positions like any other; a bit reference is the address of its element
for k in ("std::_Bit_iterator::", "std::_Bit_const_iterator::"):
    CONTRACTS[k + "operator++"] = _incdec
    CONTRACTS[k + "operator--"] = _incdec
    CONTRACTS[k + "operator+"] = _it_plus
    CONTRACTS[k + "operator-"] = _it_plus
    CONTRACTS[k + "operator+="] = _it_pluseq


def _bit_deref(c):
    it = itcell(c)
    node = vec(c, it.c)
    c.ex.oblige(c.st, "in-bounds:iterator", z3.And(it.pos >= 0, it.pos < node.n.e), "safety")
    p = c.ex.iter_deref(c.st, it)
    if c.rt.k == "bool" or "const_iterator" in c.key:
        return [(c.st, c.ex.node_at(c.st, p).e)]
    return c.ret(PyObj("bitref", p=p))


CONTRACTS["std::_Bit_iterator::operator*"] = _bit_deref
CONTRACTS["std::_Bit_const_iterator::operator*"] = _bit_deref


def bitref(c, i):
    a = c.args[i]
    if isinstance(a, PyObj) and a.kind == "bitref":
        return a.d["p"]
    n = c.ex.node_at(c.st, a)
    if isinstance(n, PyObj) and n.kind == "bitref":
        return n.d["p"]
    raise Unsupported("bit reference expected")


@contract("std::_Bit_reference::operator bool")
def _bitref_bool(c):
    return [(c.st, tobool(c.ex.node_at(c.st, bitref(c, 0)).e))]


@contract("std::_Bit_reference::operator=")
def _bitref_set(c):
    v = c.args[1]
    if isinstance(v, Ptr):
        v = c.ex.node_at(c.st, bitref(c, 1)).e
    c.ex.write(c.st, bitref(c, 0), Leaf("bool", tobool(num(v))))
    return [(c.st, c.args[0])]


@contract("std::_Bit_iterator::_Bit_iterator", "std::_Bit_const_iterator::_Bit_const_iterator")
def _bit_ctor(c):
    if len(c.args) == 1:
        return [(c.st, None)]
    a = c.args[1]
    c.ex.write(c.st, c.args[0], as_iter(c.ex, c.st, a))
    return c.ret(c.args[0])


def _bit_cmp(c):
    if "_Bit_iterator_base" not in c.dem:
        return NotImplemented
    return _it_cmp(c)


for o in ("==", "!=", "<", ">", "<=", ">="):
    CONTRACTS.setdefault("std::operator" + o, _bit_cmp)


@contract("__gnu_cxx::operator-")
def _it_diff(c):
    a, b = itcell(c, 0), itcell(c, 1)
    return [(c.st, z3.simplify(a.pos - b.pos))]


@contract("std::distance")
def _distance(c):
    a, b = itcell(c, 0), itcell(c, 1)
    return [(c.st, z3.simplify(b.pos - a.pos))]


@contract("std::advance")
def _advance(c):
    it = as_iter(c.ex, c.st, c.args[0])
    c.ex.write(c.st, c.args[0], Iter(it.kind, it.c, z3.simplify(it.pos + num(c.args[1]))))
    return [(c.st, None)]


@contract("std::next", "std::prev")
def _next(c):
    it = itcell(c, 0)
    n = num(c.args[1])
    return c.ret(Iter(it.kind, it.c, z3.simplify(it.pos + n if c.key == "std::next" else it.pos - n)))


@contract("std::begin", "std::cbegin")
def _sbegin(c):
    n = c.ex.node_at(c.st, c.args[0])
    if isinstance(n, Vec):
        return c.ret(Iter("v", c.args[0], z3.IntVal(0)))
    return NotImplemented


@contract("std::end", "std::cend")
def _send(c):
    n = c.ex.node_at(c.st, c.args[0])
    if isinstance(n, Vec):
        return c.ret(Iter("v", c.args[0], n.n.e))
    return NotImplemented


@contract("std::_Rb_tree_const_iterator::_Rb_tree_const_iterator", "std::_Rb_tree_iterator::_Rb_tree_iterator")
def _rbit_ctor(c):
    if len(c.args) == 1:
        return [(c.st, None)]
    c.ex.write(c.st, c.args[0], itcell(c, 1))
    return c.ret(c.args[0])


@contract("std::_Rb_tree_const_iterator::_M_const_cast")
def _rbcast(c):
    return c.ret(itcell(c, 0))


# ------------------------------------------------------------------ map / set
def dic(c, p=None):
    p = c.args[0] if p is None else p
    n = c.ex.node_at(c.st, p)
    if not isinstance(n, Dict):
        raise Unsupported("map expected at %r (%s)" % (p, c.key))
    if n.dom.ks:
        raise Unsupported("lifted map")
    return n


def dsz(n):
    return smt.ordfns(n.dom.e.sort().domain())[2](n.dom.e)


def dnth(n, i):
    return smt.ordfns(n.dom.e.sort().domain())[0](n.dom.e, i)


def didx(n, k):
    return smt.ordfns(n.dom.e.sort().domain())[1](n.dom.e, k)


def ksize_facts(st, old, new_dom, k, ins=True):
    S = old.dom.e.sort().domain()
    size = smt.ordfns(S)[2]
    if ins:
        st.assume(size(new_dom) == size(old.dom.e) + z3.If(z3.Select(old.dom.e, k), 0, 1))
    else:
        st.assume(size(new_dom) == size(old.dom.e) - z3.If(z3.Select(old.dom.e, k), 1, 0))


def keyval(c, p, n):
    """key term of type of the dict from a reference argument"""
    if z3.is_expr(p):
        return p
    x = c.ex.node_at(c.st, p) if isinstance(p, Ptr) else p
    if isinstance(x, Leaf):
        if x.kind != n.kkind:
            if x.kind[0] == "i" and n.kkind[0] == "i":
                return x.e
            raise Unsupported("key kind %s vs %s" % (x.kind, n.kkind))
        return x.e
    if isinstance(x, PyObj) and x.kind == "cstr":
        return str_const(x.d["s"])
    raise Unsupported("key %r" % (x,))


_strs = {}


def str_const(s):
    return z3.Real("str:" + s)


def strval(c, p):
    if isinstance(p, Leaf) and p.kind == "str":
        return p.e
    if isinstance(p, Ptr) and p.obj is not None and p.obj.startswith("@"):
        c.ex.init_global(c.st, p.obj)
    x = c.ex.node_at(c.st, p)
    if isinstance(x, Leaf) and x.kind == "str":
        return x.e
    if isinstance(x, PyObj) and x.kind == "cstr":
        return str_const(x.d["s"].replace("\\00", ""))
    if isinstance(x, Ptr):
        return strval(c, x)
    raise Unsupported("string %r" % (x,))


def newdict(c, ty):
    n = c.ex.fresh(None, ty, "map")
    S = n.dom.e.sort().domain()
    d = z3.K(S, z3.BoolVal(False))
    c.st.assume(smt.ordfns(S)[2](d) == 0)
    return Dict(Leaf("dom", d), n.val, n.kkind, n.voff, ty)


def _dict_ctor(c):
    ex, st = c.ex, c.st
    ty = c.cls()
    ps = c.params
    if not ps:
        ex.write(st, c.args[0], newdict(c, ty))
        return c.ret(c.args[0])
    if ps[0].startswith(("std::map<", "std::set<")):
        n = ex.node_at(st, c.args[1])
        if not isinstance(n, Dict):
            raise Unsupported("map copy")
        ex.write(st, c.args[0], n)
        if ps[0].endswith("&&"):
            ex.write(st, c.args[1], newdict(c, ty))
        return c.ret(c.args[0])
    if ps[0].startswith("std::initializer_list"):
        arr, cnt = il_parts(c, c.args[1], c.args[2] if len(c.args) > 2 else None)
        n = newdict(c, ty)
        esz = ex.csize(ty.args[0]) if ty.name == "std::set" else None
        if esz is None:
            esz = ex.csize(cxx.CT("named", name="std::pair", args=ty.args))
        for i in range(cnt):
            n = ins_one(c, st, n, arr.add(i * esz), n.voff, overwrite=False)
        ex.write(st, c.args[0], n)
        return c.ret(c.args[0])
    if len(ps) >= 2:
        a, b = as_iter(ex, st, c.args[1]), as_iter(ex, st, c.args[2])
        n = insert_range(c, st, newdict(c, ty), a, b)
        ex.write(st, c.args[0], n)
        return c.ret(c.args[0])
    raise Unsupported("map ctor " + c.dem[:120])


CONTRACTS["std::map::map"] = _dict_ctor
CONTRACTS["std::set::set"] = _dict_ctor


@contract("std::map::operator=", "std::set::operator=")
def _dict_assign(c):
    n = c.ex.node_at(c.st, c.args[1])
    if not isinstance(n, Dict):
        raise Unsupported("map assign")
    c.ex.write(c.st, c.args[0], n)
    if c.params[0].endswith("&&") and c.args[0].key() != c.args[1].key():
        c.ex.write(c.st, c.args[1], newdict(c, c.cls()))
    return c.ret(c.args[0])


def ins_one(c, st, n, p, voff, overwrite, kp=None, vp=None):
    """insert the pair object at p (or key at kp and value at vp)"""
    ex = c.ex
    k = keyval(c, kp if kp is not None else p, n)
    dom = z3.Store(n.dom.e, k, z3.BoolVal(True))
    ksize_facts(st, n, dom, k)
    val = n.val
    if val is not None:
        pr = sel(val, k)
        v = take(ex, st, vp if vp is not None else p.add(voff), pr)
        if not overwrite:
            v = ite(z3.Select(n.dom.e, k), pr, v)
        val = sto(val, k, v)
    return Dict(Leaf("dom", dom), val, n.kkind, n.voff, n.ty)


def insert_range(c, st, n, a, b, overwrite=False):
    """[a,b) from another dict or vector of pairs/keys"""
    ex = c.ex
    src = ex.node_at(st, a.c)
    if isinstance(src, Dict):
        S = n.dom.e.sort().domain()
        k = z3.Const("rk", S)
        whole = not ex.feas.feasible(st.facts, z3.Or(a.pos != 0, b.pos != dsz(src)))
        insrc = z3.Select(src.dom.e, k)
        if not whole:
            insrc = z3.And(insrc, didx(src, k) >= a.pos, didx(src, k) < b.pos)
        new = freshen(n, "mrg")
        st.assume(z3.ForAll([k], z3.Select(new.dom.e, k) == z3.Or(z3.Select(n.dom.e, k), insrc),
                            patterns=[z3.Select(new.dom.e, k)]))
        if n.val is not None:
            if src.val is None or not shape_eq(n.val, src.val):
                raise Unsupported("range insert shape")

            def f(nl, ol, sl):
                st.assume(z3.ForAll([k], z3.Select(nl.e, k) == z3.If(z3.Select(n.dom.e, k), z3.Select(ol.e, k),
                                                                    z3.Select(sl.e, k)),
                                    patterns=[z3.Select(nl.e, k)]))
                return nl
            tmap(f, new.val, n.val, src.val)
        st.assume(dsz(new) >= 0)
        return new
    if isinstance(src, Vec) and n.val is None:
        S = n.dom.e.sort().domain()
        k = z3.Const("rk", S)
        j = z3.Int("rj")
        new = freshen(n, "mrg")
        el = src.el
        if not isinstance(el, Leaf):
            raise Unsupported("set range")
        st.assume(z3.ForAll([k], z3.Implies(z3.Select(n.dom.e, k), z3.Select(new.dom.e, k)),
                            patterns=[z3.Select(new.dom.e, k)]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= a.pos, j < b.pos), z3.Select(new.dom.e, z3.Select(el.e, j))),
                            patterns=[z3.Select(el.e, j)]))
        w = z3.Function(fresh_name("wit"), S, INT)
        st.assume(z3.ForAll([k], z3.Implies(z3.And(z3.Select(new.dom.e, k), z3.Not(z3.Select(n.dom.e, k))),
                                            z3.And(w(k) >= a.pos, w(k) < b.pos, z3.Select(el.e, w(k)) == k)),
                            patterns=[z3.Select(new.dom.e, k)]))
        # cardinality (finite sets): distinct new elements add exactly their number, otherwise fewer
        d1, d2, d3 = (z3.Int(fresh_name("dup")) for _ in range(3))
        inr = lambda x: z3.And(x >= a.pos, x < b.pos)
        e = lambda x: z3.Select(el.e, x)
        st.assume(z3.And(dsz(new) >= dsz(n), dsz(new) <= dsz(n) + (b.pos - a.pos)))
        st.assume(z3.Or(dsz(new) == dsz(n) + (b.pos - a.pos), z3.And(inr(d1), inr(d2), d1 < d2, e(d1) == e(d2)),
                        z3.And(inr(d3), z3.Select(n.dom.e, e(d3)))))
        return new
    raise Unsupported("range insert source")


D = ("std::map::", "std::set::")


def dcontract(*names):
    return contract(*[d + n for d in D for n in names])


@dcontract("size")
def _d_size(c):
    n = dic(c)
    c.st.assume(dsz(n) >= 0)
    c.st.assume(dsz(n) <= MAXLEN)
    return [(c.st, dsz(n))]


@dcontract("empty")
def _d_empty(c):
    n = dic(c)
    c.st.assume(dsz(n) >= 0)
    S = n.dom.e.sort().domain()
    return [(c.st, dsz(n) == 0)]


@dcontract("clear")
def _d_clear(c):
    n = dic(c)
    c.ex.write(c.st, c.args[0], newdict(c, n.ty))
    return [(c.st, None)]


@dcontract("begin", "cbegin")
def _d_begin(c):
    dic(c)
    return c.ret(Iter("m", c.args[0], z3.IntVal(0)))


@dcontract("end", "cend")
def _d_end(c):
    n = dic(c)
    c.st.assume(dsz(n) >= 0)
    c.st.assume(dsz(n) <= MAXLEN)
    return c.ret(Iter("m", c.args[0], dsz(n)))


@dcontract("find")
def _d_find(c):
    n = dic(c)
    k = keyval(c, c.args[1], n)
    st = c.st
    d = z3.Select(n.dom.e, k)
    # ground instances of the ordered-dictionary axioms
    st.assume(z3.Implies(d, z3.And(didx(n, k) >= 0, didx(n, k) < dsz(n), dnth(n, didx(n, k)) == k)))
    st.assume(dsz(n) >= 0)
    return c.ret(Iter("m", c.args[0], z3.If(d, didx(n, k), dsz(n))))


@dcontract("count")
def _d_count(c):
    n = dic(c)
    k = keyval(c, c.args[1], n)
    return [(c.st, z3.If(z3.Select(n.dom.e, k), z3.IntVal(1), z3.IntVal(0)))]


@dcontract("contains")
def _d_contains(c):
    n = dic(c)
    return [(c.st, z3.Select(n.dom.e, keyval(c, c.args[1], n)))]


@contract("std::map::at")
def _d_at(c):
    n = dic(c)
    k = keyval(c, c.args[1], n)
    d = z3.Select(n.dom.e, k)
    st = c.st
    if c.ex.allow_throw and c.ex.feas.feasible(st.facts, z3.Not(d)):
        s2 = st.fork()
        s2.assume(z3.Not(d))
        c.ex.throws.append(("map::at", s2))
        st.assume(d)
    else:
        c.ex.oblige(st, "key-present:map.at", d, "safety")
    return [(st, c.args[0].step("m", k).add(n.voff))]


@contract("std::map::operator[]")
def _d_idx(c):
    n = dic(c)
    ex, st = c.ex, c.st
    k = keyval(c, c.args[1], n)
    d = z3.Select(n.dom.e, k)
    if not ex.feas.feasible(st.facts, z3.Not(d)):
        return [(st, c.args[0].step("m", k).add(n.voff))]
    dom = z3.Store(n.dom.e, k, z3.BoolVal(True))
    ksize_facts(st, n, dom, k)
    pr = sel(n.val, k)
    dv = ex.default(st, n.ty.args[1])
    val = sto(n.val, k, ite(d, pr, dv))
    ex.write(st, c.args[0], Dict(Leaf("dom", dom), val, n.kkind, n.voff, n.ty))
    return [(st, c.args[0].step("m", k).add(n.voff))]


def _pair_ret(c, st, n_old, k):
    """pair<iterator,bool>"""
    n = c.ex.node_at(st, c.args[0])
    st.assume(z3.And(didx(n, k) >= 0, didx(n, k) < dsz(n), dnth(n, didx(n, k)) == k))
    it = Iter("m", c.args[0], didx(n, k))
    return Agg({0: it, 8: Leaf("bool", z3.Not(z3.Select(n_old.dom.e, k)))})


@dcontract("insert")
def _d_insert(c):
    ex, st = c.ex, c.st
    n = dic(c)
    ps = c.params
    if len(ps) == 1 and ps[0].startswith("std::initializer_list"):
        raise Unsupported("map insert il")
    if len(ps) == 1:
        p = c.args[1]
        nn = ins_one(c, st, n, p, n.voff, overwrite=False)
        k = keyval(c, p, n)
        ex.write(st, c.args[0], nn)
        return c.ret(_pair_ret(c, st, n, k))
    if len(ps) == 2:
        a = as_iter(ex, st, c.args[1])
        try:
            b = as_iter(ex, st, c.args[2])
        except Unsupported:
            b = None
        if b is not None and "iterator" in ps[1]:
            ex.write(st, c.args[0], insert_range(c, st, n, a, b))
            return [(st, None)]
        # hint insert
        nn = ins_one(c, st, n, c.args[2], n.voff, overwrite=False)
        k = keyval(c, c.args[2], n)
        ex.write(st, c.args[0], nn)
        return c.ret(_pair_ret(c, st, n, k).d[0])
    raise Unsupported("map insert")


@dcontract("emplace", "try_emplace", "emplace_hint", "insert_or_assign")
def _d_emplace(c):
    ex, st = c.ex, c.st
    n = dic(c)
    args = c.args[1:]
    ps = list(c.params)
    nm = c.key.split("::")[-1]
    hint = nm == "emplace_hint" or (ps and "_iterator<" in ps[0].split("(")[0] and ps[0].startswith("std::_Rb_tree"))
    if hint:
        args, ps = args[1:], ps[1:]
    if n.val is None:
        if len(args) != 1:
            raise Unsupported("set emplace")
        nn = ins_one(c, st, n, args[0], 0, False)
        k = keyval(c, args[0], n)
        ex.write(st, c.args[0], nn)
        r = _pair_ret(c, st, n, k)
        return c.ret(r.d[0] if hint else r)
    kp = vp = None
    if len(args) == 2 and nm != "try_emplace" or (nm == "try_emplace" and len(args) == 2):
        vt = n.ty.args[1]
        at = cxx.parse_type(ps[1])
        pr = sel(n.val, keyval(c, args[0], n))
        ok = str(at) == str(vt)
        if not ok and isinstance(pr, Leaf):
            ok = z3_kind_ok(ex, st, args[1], pr)
        if ok:
            k = keyval(c, args[0], n)
            nn = ins_one(c, st, n, None, None, overwrite=(nm == "insert_or_assign"), kp=args[0], vp=args[1])
            ex.write(st, c.args[0], nn)
            r = _pair_ret(c, st, n, k)
            return c.ret(r.d[0] if hint else r)
    if len(args) == 1 and cxx.parse_type(ps[0]).name == "std::pair":
        nn = ins_one(c, st, n, args[0], n.voff, overwrite=False)
        k = keyval(c, args[0], n)
        ex.write(st, c.args[0], nn)
        r = _pair_ret(c, st, n, k)
        return c.ret(r.d[0] if hint else r)
    if nm == "try_emplace" and len(args) == 1:
        k = keyval(c, args[0], n)
        dom = z3.Store(n.dom.e, k, z3.BoolVal(True))
        ksize_facts(st, n, dom, k)
        dv = ex.default(st, n.ty.args[1])
        val = sto(n.val, k, ite(z3.Select(n.dom.e, k), sel(n.val, k), dv))
        ex.write(st, c.args[0], Dict(Leaf("dom", dom), val, n.kkind, n.voff, n.ty))
        r = _pair_ret(c, st, n, k)
        return c.ret(r.d[0] if hint else r)
    # general: run the real pair construction
    out = []
    target = find_callee(ex, c.name, r"allocator_traits<.*>::construct<std::pair<", depth=6)
    if target is None:
        raise Unsupported("emplace construct " + c.dem[:150])
    o = ex.new_obj(st, "tmp")
    al = ex.new_obj(st, "alc")
    for s2, _ in ex.run_fn(st, target, [Ptr(al), Ptr(o)] + args):
        c2 = c
        n2 = ex.node_at(s2, c.args[0])
        old_st = c.st
        c.st = s2
        nn = ins_one(c, s2, n2, Ptr(o), n2.voff, overwrite=False)
        k = keyval(c, Ptr(o), n2)
        ex.write(s2, c.args[0], nn)
        r = _pair_ret(c, s2, n2, k)
        out += c.ret(r.d[0] if hint else r, s2)
        c.st = old_st
    return out


@dcontract("erase")
def _d_erase(c):
    ex, st = c.ex, c.st
    n = dic(c)
    t = cxx.parse_type(c.params[0])
    S = n.dom.e.sort().domain()
    if t.k == "named" and "iterator" in (t.name or ""):
        if len(c.params) > 1:
            raise Unsupported("erase range")
        it = itcell(c, 1)
        k = dnth(n, it.pos)
        ex.oblige(st, "in-bounds:erase", z3.And(it.pos >= 0, it.pos < dsz(n)), "safety")
        st.assume(z3.Implies(z3.And(it.pos >= 0, it.pos < dsz(n)), z3.Select(n.dom.e, k)))
        r = Iter("m", c.args[0], it.pos)
    else:
        k = keyval(c, c.args[1], n)
        r = z3.If(z3.Select(n.dom.e, k), z3.IntVal(1), z3.IntVal(0))
    dom = z3.Store(n.dom.e, k, z3.BoolVal(False))
    ksize_facts(st, n, dom, k, ins=False)
    nn = Dict(Leaf("dom", dom), n.val, n.kkind, n.voff, n.ty)
    ex.write(st, c.args[0], nn)
    if isinstance(r, Iter):
        # order of the remaining keys: positions after the erased one shift down
        nth = smt.ordfns(S)[0]
        j = z3.Int("rj")
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < dsz(nn)),
                                            nth(dom, j) == nth(n.dom.e, z3.If(j < r.pos, j, j + 1))),
                            patterns=[nth(dom, j)]))
    return c.ret(r)


@dcontract("key_comp", "value_comp", "get_allocator")
def _d_comp(c):
    return c.ret(None) if c.sret is None else [(c.st, None)]


@dcontract("lower_bound", "upper_bound")
def _d_lb(c):
    n = dic(c)
    st = c.st
    k = keyval(c, c.args[1], n)
    p = z3.Int(fresh_name("lb"))
    st.assume(z3.And(p >= 0, p <= dsz(n)))
    j = z3.Int("rj")
    lt = (lambda a, b: a < b) if c.key.endswith("lower_bound") else (lambda a, b: a <= b)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), lt(dnth(n, j), k)), patterns=[dnth(n, j)]))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= p, j < dsz(n)), z3.Not(lt(dnth(n, j), k))), patterns=[dnth(n, j)]))
    return c.ret(Iter("m", c.args[0], p))


@contract("std::less::operator()")
def _less(c):
    ex, st = c.ex, c.st
    a, b = c.args[1], c.args[2]
    x, y = ex.node_at(st, a), ex.node_at(st, b)
    if isinstance(x, Leaf) and isinstance(y, Leaf) and x.kind == y.kind and x.kind != "mat":
        return [(st, x.e < y.e)]
    return NotImplemented


# ------------------------------------------------------------------ strings (totally ordered opaque values)
@pattern(r"^std::(__cxx11::)?basic_string::basic_string$")
def _str_ctor(c):
    ex, st = c.ex, c.st
    if not c.params or (len(c.params) == 1 and c.params[0].startswith("std::allocator")):
        ex.write(st, c.args[0], Leaf("str", str_const("")))
        return c.ret(c.args[0])
    try:
        ex.write(st, c.args[0], Leaf("str", strval(c, c.args[1])))
    except Unsupported:
        ex.write(st, c.args[0], Leaf("str", z3.Real(fresh_name("str"))))
    return c.ret(c.args[0])


@pattern(r"^std::(__cxx11::)?basic_string::operator=$")
def _str_assign(c):
    c.ex.write(c.st, c.args[0], Leaf("str", strval(c, c.args[1])))
    return c.ret(c.args[0])


@pattern(r"^std::(__cxx11::)?basic_string::(operator\+=|append|push_back)$")
def _str_append(c):
    ex, st = c.ex, c.st
    try:
        r = smt.uf("strcat", REAL, REAL, REAL)(strval(c, c.args[0]), strval(c, c.args[1]))
    except Unsupported:
        r = z3.Real(fresh_name("str"))
    ex.write(st, c.args[0], Leaf("str", r))
    return c.ret(c.args[0])


@contract("std::operator+")
def _str_plus(c):
    if not any("basic_string" in p for p in c.params or []):
        return NotImplemented
    try:
        r = smt.uf("strcat", REAL, REAL, REAL)(strval(c, c.args[0]), strval(c, c.args[1]))
    except Unsupported:
        r = z3.Real(fresh_name("str"))
    return c.ret(Leaf("str", r))


@contract("std::to_string", "std::__cxx11::to_string")
def _to_string(c):
    a = num(c.args[0])
    return c.ret(Leaf("str", smt.uf("to_string", a.sort(), REAL)(a)))


# ------------------------------------------------------------------ algorithms
def run_callable(ex, st, opname, args):
    pass


def callee_op(c, what):
    """name of the predicate / function object's operator() used below this algorithm instance"""
    t = find_callee(c.ex, c.name, what, depth=6)
    return t


def summarize(ex, st, run):
    """run a side-effect free callable: run(state)->[(st,val)], combine into one term"""
    base = len(st.facts)
    s0 = st.fork()
    outs = run(s0)
    if not outs:
        raise Unsupported("callable never returns")
    term = None
    for s, v in outs:
        if isinstance(v, Leaf):
            v = v.e
        if not z3.is_expr(v):
            raise Unsupported("callable result")
        pc = s.facts[base:]
        if term is None:
            term = v
        else:
            if z3.is_bool(v) != z3.is_bool(term):
                raise Unsupported("mixed")
            term = z3.If(z3.And(pc) if pc else z3.BoolVal(True), v, term)
    for s, v in outs:
        for obj, cells in st.mem.items():
            if s.mem.get(obj) is not cells:
                for off, x in cells.items():
                    if not same(x, s.mem[obj].get(off)):
                        raise Unsupported("callable has side effects")
    return z3.simplify(term) if not z3.is_quantifier(term) else term


@contract("std::iota")
def _iota(c):
    ex, st = c.ex, c.st
    a, b = itcell(c, 0), itcell(c, 1)
    x = c.args[2]
    v = ex.node_at(st, a.c)
    if not (isinstance(v, Vec) and isinstance(v.el, Leaf) and v.el.kind[0] == "i"):
        raise Unsupported("iota")
    x0 = num(x)
    new = freshen(v, "iota")
    j = z3.Int("rj")
    st.assume(z3.ForAll([j], z3.Select(new.el.e, j) ==
                        z3.If(z3.And(j >= a.pos, j < b.pos), x0 + (j - a.pos), z3.Select(v.el.e, j)),
                        patterns=[z3.Select(new.el.e, j)]))
    ex.write(st, a.c, Vec(v.n, new.el, v.ty))
    return [(st, None)]


@contract("std::find")
def _find(c):
    ex, st = c.ex, c.st
    a, b = itcell(c, 0), itcell(c, 1)
    node = ex.node_at(st, a.c)
    if not (isinstance(node, Vec)):
        raise Unsupported("find")
    pr = elem_proto(node)
    x = take(ex, st, c.args[2], pr)
    p = z3.Int(fresh_name("fnd"))
    j = z3.Int("rj")
    st.assume(z3.And(p >= a.pos, p <= b.pos))
    st.assume(z3.Implies(p < b.pos, node_eq(sel(node.el, p), x)))
    lf = next(leaves(sel(node.el, j)))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= a.pos, j < p), z3.Not(node_eq(sel(node.el, j), x))), patterns=[lf.e]))
    return c.ret(Iter("v", a.c, p))


@contract("std::min_element", "std::max_element")
def _minmax_el(c):
    ex, st = c.ex, c.st
    if len(c.args) != 2:
        raise Unsupported("min_element with comparator")
    a, b = itcell(c, 0), itcell(c, 1)
    node = ex.node_at(st, a.c)
    if isinstance(node, Dict) and node.val is None and node.dom.e.sort().domain() == INT:
        # a set iterates in ascending order: its extremes are its ends; if no element between them is missing,
        # it has as many elements as the interval
        n = dsz(node)
        if ex.feas.feasible(st.facts, z3.Or(a.pos != 0, b.pos != n)):
            raise Unsupported("extreme of part of a set")
        nth, idx, _, _ = smt.ordfns(INT)
        A = node.dom.e
        lo, hi = nth(A, z3.IntVal(0)), nth(A, n - 1)
        gap = z3.Int(fresh_name("gap"))
        k = z3.Int("rk")
        st.assume(z3.Implies(n > 0, z3.And(lo <= hi, z3.Select(A, lo), z3.Select(A, hi),
                                           z3.Or(n == hi - lo + 1, z3.And(lo < gap, gap < hi, z3.Not(z3.Select(A, gap)))))))
        st.assume(z3.ForAll([k], z3.Implies(z3.Select(A, k), z3.And(lo <= k, k <= hi)), patterns=[z3.Select(A, k)]))
        return c.ret(Iter(a.kind, a.c, z3.IntVal(0) if c.key.endswith("min_element") else z3.If(n > 0, n - 1, z3.IntVal(0))))
    if isinstance(node, Vec) and isinstance(node.el, Struct):
        f = less_callee(c)
        p = z3.Int(fresh_name("ext"))
        j = z3.Int("rj")
        st.assume(z3.And(p >= a.pos, p <= b.pos, z3.Implies(a.pos < b.pos, p < b.pos)))
        x, y = (j, p) if c.key.endswith("min_element") else (p, j)
        lt = elem_less(c, st, f, a.c, x, y)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= a.pos, j < b.pos), z3.Not(lt)), patterns=[l.e for l in leaves(sel(node.el, j))]))
        return c.ret(Iter("v", a.c, p))
    if not (isinstance(node, Vec) and isinstance(node.el, Leaf)):
        raise Unsupported("min_element")
    p = z3.Int(fresh_name("ext"))
    j = z3.Int("rj")
    e = lambda i: z3.Select(node.el.e, i)
    st.assume(z3.And(p >= a.pos, p <= b.pos, z3.Implies(a.pos < b.pos, p < b.pos)))
    if c.key.endswith("min_element"):
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= a.pos, j < b.pos), e(p) <= e(j)), patterns=[e(j)]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= a.pos, j < p), e(p) < e(j)), patterns=[e(j)]))
    else:
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= a.pos, j < b.pos), e(p) >= e(j)), patterns=[e(j)]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= a.pos, j < p), e(p) > e(j)), patterns=[e(j)]))
    return c.ret(Iter("v", a.c, p))


@contract("std::back_inserter")
def _backins(c):
    return c.ret(PyObj("back_inserter", c=c.args[0]))


@contract("std::inserter")
def _inserter(c):
    return c.ret(PyObj("inserter", c=c.args[0]))


def _outit(c):
    p = c.args[0]
    x = c.ex.node_at(c.st, p) if isinstance(p, Ptr) else p
    if not isinstance(x, PyObj):
        raise Unsupported("output iterator")
    return x


@contract("std::back_insert_iterator::operator=", "std::insert_iterator::operator=")
def _out_assign(c):
    """*it = value: append to / insert into the underlying container"""
    ex, st = c.ex, c.st
    tgt = _outit(c).d["c"]
    n = ex.node_at(st, tgt)
    if isinstance(n, Vec) and "back" in c.key:
        el = sto(n.el, veclen(c, n), take(ex, st, c.args[1], elem_proto(n)))
        ex.write(st, tgt, Vec(i64(z3.simplify(n.n.e + 1)), el, n.ty))
    elif isinstance(n, Dict):
        ex.write(st, tgt, ins_one(c, st, n, c.args[1], n.voff, overwrite=False))
    else:
        raise Unsupported("output iterator target")
    return c.ret(c.args[0])


@contract("std::set_difference")
def _set_difference(c):
    """library contract: whole sorted ranges of two sets into a set"""
    ex, st = c.ex, c.st
    if len(c.args) not in (5, 6) or not isinstance(c.args[4], (PyObj, Ptr)):
        return NotImplemented
    out = c.args[4] if isinstance(c.args[4], PyObj) else ex.node_at(st, c.args[4])
    if not isinstance(out, PyObj):
        return NotImplemented
    its = [as_iter(ex, st, a) for a in c.args[:4]]
    a, b, d = ex.node_at(st, its[0].c), ex.node_at(st, its[2].c), ex.node_at(st, out.d["c"])
    if not (isinstance(a, Dict) and isinstance(b, Dict) and isinstance(d, Dict) and a.val is None and b.val is None and d.val is None):
        return NotImplemented
    for i, n in ((0, a), (2, b)):
        if ex.feas.feasible(st.facts, z3.Or(its[i].pos != 0, its[i + 1].pos != dsz(n))):
            return NotImplemented
    new = freshen(d, "sdf")
    k = z3.Const("rk", d.dom.e.sort().domain())
    st.assume(z3.ForAll([k], z3.Select(new.dom.e, k) == z3.Or(z3.Select(d.dom.e, k), z3.And(z3.Select(a.dom.e, k), z3.Not(z3.Select(b.dom.e, k)))),
                        patterns=[z3.Select(new.dom.e, k)]))
    # the same fact triggered from the first set (its elements are in the result or in the second set)
    st.assume(z3.ForAll([k], z3.Implies(z3.Select(a.dom.e, k), z3.Or(z3.Select(new.dom.e, k), z3.Select(b.dom.e, k))), patterns=[z3.Select(a.dom.e, k)]))
    st.assume(dsz(new) >= 0)
    # cardinality: removing a subset removes exactly its number of elements
    w = z3.Const(fresh_name("notin"), d.dom.e.sort().domain())
    w2 = z3.Const(fresh_name("had"), d.dom.e.sort().domain())
    st.assume(z3.Or(dsz(new) == dsz(a) - dsz(b), z3.And(z3.Select(b.dom.e, w), z3.Not(z3.Select(a.dom.e, w))), z3.Select(d.dom.e, w2)))
    ex.write(st, out.d["c"], new)
    return c.ret(out)


@contract("std::back_insert_iterator::operator*", "std::insert_iterator::operator*", "std::back_insert_iterator::operator++",
          "std::insert_iterator::operator++")
def _out_id(c):
    return c.ret(c.args[0])


def sorted_fn(sort):
    """the (unique) array obtained by sorting positions [lo, hi) with operator<"""
    return smt.uf("sorted", sort, INT, INT, sort)


def sorted_struct(v, lo, hi):
    """(sorted element tree, permutation, inverse) of a vector of structs: functions of the original contents"""
    ls = [l.e for l in leaves(v.el)]
    sg = "_".join(str(x.sort()) for x in ls)
    so = [x.sort() for x in ls]
    n = iter(range(1000))
    el = tmap(lambda l: Leaf(l.kind, smt.uf("ssort%d:%s" % (next(n), sg), *(so + [INT, INT, l.e.sort()]))(*(ls + [lo, hi])), l.ks), v.el)
    pf, qf = (smt.uf("%s:%s" % (nm, sg), *(so + [INT, INT, INT, INT])) for nm in ("sperm", "sinv"))
    return el, (lambda i: pf(*(ls + [lo, hi, i]))), (lambda i: qf(*(ls + [lo, hi, i])))


def less_callee(c):
    f = find_callee(c.ex, c.name, r"^(bool )?albatross::[^(]*operator<\(", depth=8)
    if f is None:
        raise Unsupported("comparison used by " + c.key)
    return f


def elem_less(c, st, f, cp, i, j):
    """element i of the vector at cp is less than element j, according to the real operator<"""
    ex = c.ex
    return summarize(ex, st, lambda s: ex.run_fn(s, f, [cp.step("v", i), cp.step("v", j)]))


def sort_struct(c, a, b, v):
    ex, st = c.ex, c.st
    f = less_callee(c)
    el, perm, inv = sorted_struct(v, a.pos, b.pos)
    ex.write(st, a.c, Vec(v.n, el, v.ty))
    i, j = z3.Ints("ri rj")
    inr = lambda k: z3.And(k >= a.pos, k < b.pos)
    N, O = [l.e for l in leaves(sel(el, i))], [l.e for l in leaves(sel(v.el, i))]
    Op = [l.e for l in leaves(sel(v.el, perm(i)))]
    Ni = [l.e for l in leaves(sel(el, inv(i)))]
    for n, o, op, ni in zip(N, O, Op, Ni):
        st.assume(z3.ForAll([i], z3.Implies(z3.Not(inr(i)), n == o), patterns=[n]))
        st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(perm(i)), n == op, inv(perm(i)) == i)), patterns=[n]))
        st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(inv(i)), o == ni, perm(inv(i)) == i)), patterns=[o]))
    lt = elem_less(c, st, f, a.c, i, j)
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i > j), z3.Not(lt)),
                        patterns=[z3.MultiPattern(x, y) for x, y in zip([l.e for l in leaves(sel(el, i))], [l.e for l in leaves(sel(el, j))])]))
    return [(st, None)]


@contract("std::find_if", "std::find_if_not", "std::any_of", "std::all_of", "std::none_of")
def _find_if(c):
    ex, st = c.ex, c.st
    a, b = itcell(c, 0), itcell(c, 1)
    node = ex.node_at(st, a.c)
    f = find_callee(ex, c.name, r"^(?!.*__ops::).*(lambda.*\}|'lambda\d*'\([^)]*\))::operator\(\)", depth=8)
    if not isinstance(node, Vec) or f is None:
        raise Unsupported(c.key)
    if len(c.args) > 2:
        x = c.args[2]
        fo = Ptr(ex.new_obj(st, "functor"))
        if isinstance(x, Agg):
            for o, y in x.d.items():
                ex.write(st, fo.add(o), y)
        elif len(c.args) == 3:
            ex.write(st, fo, x if not z3.is_expr(x) else Leaf("i64", x))
        else:
            raise Unsupported("functor passing of " + c.key)
    else:
        fo = Ptr(ex.new_obj(st, "functor"))
    j = z3.Int("rj")
    pred = lambda k: tobool(summarize(ex, st, lambda s: ex.run_fn(s, f, [fo, a.c.step("v", k)])))
    if c.key.endswith("not"):
        p0 = pred
        pred = lambda k: z3.Not(p0(k))
    pats = [l.e for l in leaves(sel(node.el, j))]
    inr = z3.And(j >= a.pos, j < b.pos)
    if c.key in ("std::any_of", "std::none_of"):
        e = z3.Exists([j], z3.And(inr, pred(j)))
        return [(st, z3.Not(e) if "none" in c.key else e)]
    if c.key == "std::all_of":
        return [(st, z3.ForAll([j], z3.Implies(inr, pred(j)), patterns=pats))]
    p = z3.Int(fresh_name("fnd"))
    st.assume(z3.And(p >= a.pos, p <= b.pos))
    st.assume(z3.Implies(p < b.pos, pred(p)))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= a.pos, j < p), z3.Not(pred(j))), patterns=pats))
    return c.ret(Iter("v", a.c, p))


@contract("std::sort", "std::stable_sort")
def _sort(c):
    ex, st = c.ex, c.st
    if len(c.args) != 2:
        raise Unsupported("sort with comparator")
    a, b = itcell(c, 0), itcell(c, 1)
    v = ex.node_at(st, a.c)
    if isinstance(v, Vec) and isinstance(v.el, Struct):
        return sort_struct(c, a, b, v)
    if not (isinstance(v, Vec) and isinstance(v.el, Leaf)):
        raise Unsupported("sort")
    new = freshen(v, "srt")
    if isinstance(new.el, Leaf):
        new = Vec(new.n, Leaf(v.el.kind, sorted_fn(v.el.e.sort())(v.el.e, a.pos, b.pos), v.el.ks), v.ty)
    perm = z3.Function(fresh_name("perm"), INT, INT)
    inv = z3.Function(fresh_name("pinv"), INT, INT)
    i, j = z3.Ints("ri rj")
    N = lambda k: z3.Select(new.el.e, k)
    O = lambda k: z3.Select(v.el.e, k)
    inr = lambda k: z3.And(k >= a.pos, k < b.pos)
    st.assume(z3.ForAll([i], z3.Implies(z3.Not(inr(i)), N(i) == O(i)), patterns=[N(i)]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i <= j), N(i) <= N(j)), patterns=[z3.MultiPattern(N(i), N(j))]))
    st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(perm(i)), N(i) == O(perm(i)), inv(perm(i)) == i)), patterns=[N(i)]))
    st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(inv(i)), O(i) == N(inv(i)), perm(inv(i)) == i)), patterns=[O(i)]))
    ex.write(st, a.c, Vec(v.n, new.el, v.ty))
    return [(st, None)]


@contract("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest", "std::numeric_limits::epsilon")
def _lim(c):
    if c.rt.k == "double":
        nm = c.key.split("::")[-1]
        if nm == "epsilon":
            return [(c.st, z3.RealVal(1) / z3.RealVal(2 ** 52))]
        if nm in ("max", "lowest"):
            v = z3.RealVal(int(sys.float_info.max))
            return [(c.st, v if nm == "max" else -v)]
        v = z3.Real("DBL_" + nm)
        c.st.assume(v > 0)
        return [(c.st, v)]
    return NotImplemented


@pattern(r"^std::(__cxx11::)?basic_string::(size|length|empty)$")
def _str_size(c):
    s = strval(c, c.args[0])
    n = smt.uf("strlen", REAL, INT)(s)
    c.st.assume(n >= 0)
    c.st.assume((n == 0) == (s == str_const("")))
    if c.key.endswith("empty"):
        return [(c.st, n == 0)]
    return [(c.st, n)]
