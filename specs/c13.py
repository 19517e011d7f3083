"""C13: ordered-map helpers (map_utils.hpp) compute exactly the set-algebra result they name."""
from speclib import *

MOD = "map_utils"


def dom(m, k):
    return z3.Select(m.dom.e, k)


def val(m, k):
    return z3.Select(m.val.e, k)


@spec("C13", MOD, "contains")
def contains(v):
    m = v.pre[0]
    for p in v.run():
        p.ensure("true iff key present", p.ret == dom(m, v.a(1)))


@spec("C13", MOD, "at_or")
def at_or(v):
    m, k = v.pre[0], v.a(1)
    for p in v.run():
        p.ensure("stored value or the alternative", p.ret == z3.If(dom(m, k), val(m, k), v.a(2)))


@spec("C13", MOD, "at_or_default")
def at_or_default(v):
    m, k = v.pre[0], v.a(1)
    for p in v.run():
        p.ensure("stored value or value-initialised", p.ret == z3.If(dom(m, k), val(m, k), z3.RealVal(0)))


@spec("C13", MOD, "keys")
def keys(v):
    a = v.pre[0]
    el = lambda j: nth(a.dom.e, j)
    v.template(vec_prefix(el))
    for p in v.run():
        p.ensure("keys in order", vec_is(p.ret, size(a.dom.e), el))


@spec("C13", MOD, "values")
def values(v):
    a = v.pre[0]
    el = lambda j: val(a, nth(a.dom.e, j))
    v.template(vec_prefix(el))
    for p in v.run():
        p.ensure("values in key order", vec_is(p.ret, size(a.dom.e), el))


@spec("C13", MOD, "join")
def join(v):
    a, b = v.pre
    for p in v.run():
        p.ensure("domain is the union", dict_is(p.ret, lambda k: z3.Or(dom(a, k), dom(b, k))))
        p.ensure("second map wins", dict_is(p.ret, lambda k: z3.Or(dom(a, k), dom(b, k)),
                                            lambda k: z3.If(dom(b, k), val(b, k), val(a, k))))


def processed_dict(domfn, valfn):
    """modified dictionary r satisfies r[k] <=> domfn(k) and k has been passed by the iterators"""
    def t(v):
        a = v.pre[0]

        def tt(ctx):
            out = []
            k = K
            for n, g in ctx.of(Dict):
                for pn, pg in iters_over(ctx, a):
                    def f(s, g=g, pg=pg):
                        r = g(s)
                        pr = z3.And(dom(a, k), idx(a.dom.e, k) < pg(s))
                        return forall(k, dom(r, k) == domfn(k, pr), dom(r, k))

                    def f2(s, g=g, pg=pg):
                        r = g(s)
                        pr = z3.And(dom(a, k), idx(a.dom.e, k) < pg(s))
                        return forall(k, implies(dom(r, k), val(r, k) == valfn(k, pr)), dom(r, k))
                    out.append(("processed domain %s %s" % (n, pn), f))
                    out.append(("processed values %s %s" % (n, pn), f2))
            return out
        return tt
    return t


@spec("C13", MOD, "join_strict")
def join_strict(v):
    a, b = v.pre
    v.requires(forall(K, z3.Not(z3.And(dom(a, K), dom(b, K))), dom(a, K)))
    v.template(processed_dict(lambda k, pr: z3.Or(pr, dom(b, k)), lambda k, pr: z3.If(dom(b, k), val(b, k), val(a, k)))(v))
    for p in v.run():
        p.ensure("disjoint union", dict_is(p.ret, lambda k: z3.Or(dom(a, k), dom(b, k)),
                                           lambda k: z3.If(dom(b, k), val(b, k), val(a, k))))


@spec("C13", MOD, "join_strict", name="join_strict[overlap]")
def join_strict_overlap(v):
    """with a shared key the function never returns normally"""
    a, b = v.pre
    k0 = z3.Int("shared")
    v.requires(z3.And(dom(a, k0), dom(b, k0), idx(a.dom.e, k0) >= 0, idx(a.dom.e, k0) < size(a.dom.e),
                      nth(a.dom.e, idx(a.dom.e, k0)) == k0))
    v.ex.allow_throw = True

    def t(ctx):
        out = []
        for n, g in ctx.of(Dict):
            out.append(("shared key still present " + n, lambda s, g=g: dom(g(s), k0)))
        for pn, pg in iters_over(ctx, a):
            out.append(("before shared key " + pn, lambda s, pg=pg: pg(s) <= idx(a.dom.e, k0)))
        return out
    v.template(t)
    for p in v.run():
        p.ensure("duplicate key never silently joined", z3.BoolVal(False))


# ------------------------------------------------------------------ merge family
def merge_templates(v, domfn, valfn, isvec=False):
    """Linear merge over two ordered maps.  Invariants: every key before either cursor is smaller than every
    key at or after the other cursor, and the result holds exactly the selected processed keys."""
    a, b = v.pre[0], v.pre[1]
    A, B = a.dom.e, (b.dom.e if isinstance(b, Dict) else None)
    k = K
    sza = size(A)
    if B is not None:
        szb = size(B)
        nb = lambda i: nth(B, i)
    else:
        szb = b.n.e
        nb = lambda i: z3.Select(b.el.e, i)

    def poss(ctx):
        pa = iters_over(ctx, a)
        pb = iters_over(ctx, b)
        if not pa:
            pa = [(n, lambda s, g=g: g) for n, g in fixed(ctx, a)]
        if not pb:
            pb = [(n, lambda s, g=g: g) for n, g in fixed(ctx, b)]
        return pa, pb

    def fixed(ctx, node):
        """iterators over node that do not change in this loop"""
        out = []
        for obj in ctx.ex.visible(ctx.entry):
            for off, it in ctx.entry.mem.get(obj, {}).items():
                if isinstance(it, Iter) and (obj, off) not in ctx.M:
                    try:
                        c = ctx.ex.node_at(ctx.entry, it.c)
                    except Unsupported:
                        continue
                    if type(c) is type(node) and all(x.e.eq(y.e) for x, y in zip(leaves(c), leaves(node))):
                        out.append(("%s.%s" % (obj, off), it.pos))
        return out

    def t(ctx):
        out = []
        pas, pbs = poss(ctx)
        for an, pa in pas:
            for bn, pb in pbs:
                def c1(s, pa=pa, pb=pb):
                    i = J
                    return implies(pb(s) < szb, forall(i, implies(rng(i, 0, pa(s)), nth(A, i) < nb(pb(s))), nth(A, i)))

                def c2(s, pa=pa, pb=pb):
                    i = J
                    return implies(pa(s) < sza, forall(i, implies(rng(i, 0, pb(s)), nb(i) < nth(A, pa(s))), nb(i)))
                out.append(("a-before-b " + an + bn, c1))
                out.append(("b-before-a " + an + bn, c2))

                def PA(s, k, pa=pa):
                    return z3.And(dom(a, k), idx(A, k) < pa(s))

                def PB(s, k, pb=pb):
                    return z3.And(dom(b, k), idx(B, k) < pb(s)) if B is not None else z3.BoolVal(False)
                for n, g in ctx.of(Dict):
                    def f(s, g=g, PA=PA, PB=PB):
                        r = g(s)
                        return forall(k, dom(r, k) == domfn(k, PA(s, k), PB(s, k)), dom(r, k))

                    def f2(s, g=g, PA=PA, PB=PB):
                        r = g(s)
                        return forall(k, implies(dom(r, k), leaf_eq_nodes(sel(r.val, k), valfn(k))), dom(r, k))
                    out.append(("processed domain %s %s%s" % (n, an, bn), f))
                    out.append(("processed values %s %s%s" % (n, an, bn), f2))
                for n, g in ctx.of(Vec):
                    e = lambda s, i, g=g: z3.Select(g(s).el.e, i)

                    def v1(s, g=g, PA=PA, PB=PB, e=e):
                        i = J
                        return forall(i, implies(rng(i, 0, g(s).n.e), domfn(e(s, i), PA(s, e(s, i)), PB(s, e(s, i)))), e(s, i))

                    def v2(s, g=g, e=e):
                        return forall([J, J2], implies(z3.And(J >= 0, J < J2, J2 < g(s).n.e), e(s, J) < e(s, J2)),
                                      z3.MultiPattern(e(s, J), e(s, J2)))
                    out.append(("collected keys valid %s" % n, v1))
                    out.append(("collected keys sorted %s" % n, v2))
                    # completeness through a ghost position: every processed selected key is in the vector
                    def v3(s, g=g, PA=PA, PB=PB, e=e):
                        i = z3.Int("gi")
                        return forall(k, implies(domfn(k, PA(s, k), PB(s, k)),
                                                 z3.Exists([i], z3.And(i >= 0, i < g(s).n.e, e(s, i) == k))), idx(A, k))
                    out.append(("collected keys complete %s" % n, v3))
        return out
    v.template(t)


def merge_spec(fn, sel_, valfn, **kw):
    """sel_(ina, inb) -> key selected"""
    @spec("C13", MOD, fn, **kw)
    def f(v):
        a, b = v.pre

        def domfn(k, pa, pb):
            # with the processed predicates: keys selected and already passed by a cursor that holds them
            return z3.And(sel_(dom(a, k), dom(b, k)), z3.Or(pa, pb))
        vf = lambda k: valfn(a, b, k)
        merge_templates(v, domfn, vf)
        for p in v.run():
            r = p.ret
            p.ensure("selected keys", dict_is(r, lambda k: sel_(dom(a, k), dom(b, k))))
            p.ensure("values", forall(K, implies(dom(r, K), leaf_eq_nodes(sel(r.val, K), vf(K)))))


merge3 = lambda a, b, k: smt.uf("vpx::merge3", INT, REAL, REAL, REAL)(k, val(a, k), val(b, k))
either = lambda a, b, k: z3.If(dom(a, k), val(a, k), val(b, k))
merge_spec("uni", z3.Or, either)
merge_spec("uni_merge", z3.Or, lambda a, b, k: z3.If(z3.And(dom(a, k), dom(b, k)), merge3(a, b, k), either(a, b, k)))
merge_spec("uni_right", z3.Or, lambda a, b, k: z3.If(dom(b, k), val(b, k), val(a, k)))
merge_spec("diff", lambda x, y: z3.And(x, z3.Not(y)), lambda a, b, k: val(a, k))
merge_spec("sym", z3.Xor, either)
merge_spec("inter_merge", z3.And, merge3)
merge_spec("inter", z3.And, lambda a, b, k: [val(a, k), val(b, k)])
merge_spec("subset", z3.And, lambda a, b, k: val(a, k))


def keys_spec(fn, sel_):
    @spec("C13", MOD, fn, name_push=True)
    def f(v):
        a, b = v.pre
        saturate(v, a, b)
        merge_templates(v, lambda k, pa, pb: z3.And(sel_(dom(a, k), dom(b, k)), pa), None)
        for p in v.run():
            r = p.ret
            e = lambda i: z3.Select(r.el.e, i)
            p.ensure("every returned key is selected",
                     forall(J, implies(rng(J, 0, r.n.e), sel_(dom(a, e(J)), dom(b, e(J))))))
            p.ensure("returned keys strictly increasing",
                     forall([J, J2], implies(z3.And(J >= 0, J < J2, J2 < r.n.e), e(J) < e(J2))))
            p.ensure("every selected key is returned",
                     forall(K, implies(sel_(dom(a, K), dom(b, K)),
                                       z3.Exists([J], z3.And(rng(J, 0, r.n.e), e(J) == K)))))


keys_spec("diff_keys", lambda x, y: z3.And(x, z3.Not(y)))
keys_spec("inter_keys", z3.And)


@spec("C13", MOD, "subset_sorted")
def subset_sorted(v):
    a, ks = v.pre
    e = lambda i: z3.Select(ks.el.e, i)
    wit = z3.Function("keypos", INT, INT)
    inks = lambda k: z3.And(wit(k) >= 0, wit(k) < ks.n.e, e(wit(k)) == k)
    # strictly sorted key sequence (the documented precondition is is_sorted)
    v.requires(forall([J, J2], implies(z3.And(J >= 0, J < J2, J2 < ks.n.e), e(J) < e(J2)), z3.MultiPattern(e(J), e(J2))))
    v.requires(forall(J, implies(rng(J, 0, ks.n.e), wit(e(J)) == J), e(J)))
    merge_templates(v, lambda k, pa, pb: z3.And(pa, inks(k)), lambda k: val(a, k))
    for p in v.run():
        p.ensure("selected associations", dict_is(p.ret, lambda k: z3.And(dom(a, k), inks(k)), lambda k: val(a, k)))
