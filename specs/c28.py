"""C28: applying in parallel gives what applying serially gives."""
import contracts_async
from contracts_async import task_arg, FRESH
from speclib import *

MOD = "async"
f_ = smt.uf("vpx::f", INT, REAL)
g_ = smt.uf("vpx::g", INT, REAL, REAL)
KK = z3.Int("qk")
OPT = dict(fresh=FRESH)


def dom(m, k):
    return z3.Select(m.dom.e, k)


def val(m, k):
    return z3.Select(m.val.e, k)


def values(fn):
    @spec("C28", MOD, fn, **OPT)
    def f(v):
        a = v.pre[0]
        el = lambda j: f_(sel(a.el, j).e)
        v.template(vec_prefix(el))
        for p in v.run():
            p.ensure("one result per element, in order", vec_is(p.ret, a.n.e, el))


values("values")
values("values_no_pool")


def mapped(fn, h):
    @spec("C28", MOD, fn, **OPT)
    def f(v):
        a = v.pre[0]
        A = a.dom.e
        saturate(v, a)

        def t(ctx):
            out = []
            for dn, dg in ctx.of(Dict):
                for n, g in ctx.of(Iter):
                    out.append(("results so far %s %s" % (dn, n), lambda s, dg=dg, g=g: z3.And(g(s).pos >= 0, g(s).pos <= size(A),
                        forall(KK, z3.And(dom(dg(s), KK) == z3.And(dom(a, KK), idx(A, KK) < g(s).pos),
                                          implies(dom(dg(s), KK), val(dg(s), KK) == h(KK, val(a, KK)))), dom(dg(s), KK)))))
            return out
        v.template(t)
        for p in v.run():
            p.ensure("one result per key", forall(KK, dom(p.ret, KK) == dom(a, KK), dom(p.ret, KK)))
            p.ensure("the result for that key", forall(KK, implies(dom(a, KK), val(p.ret, KK) == h(KK, val(a, KK))), val(p.ret, KK)))


mapped("map_values", lambda k, x: g_(3, x))
mapped("map_pairs", g_)
mapped("grouped_values", lambda k, x: g_(3, x))
mapped("grouped_pairs", g_)


def tickets(a_at, vis, k=0):
    """futures so far hold the tasks of the elements so far"""
    def t(ctx):
        out = []
        for vn, vg in ctx.of(Vec):
            if isinstance(vg(ctx.entry).el, Leaf) and vg(ctx.entry).el.kind == "i64":
                ks = [x for x in (a_at if isinstance(a_at, list) else [a_at])]
                for i, fn in enumerate(ks):
                    arg = task_arg(i, Leaf("x", fn(J)))
                    out.append(("task argument %d of %s" % (i, vn), lambda s, vg=vg, arg=arg, fn=fn: forall(J, implies(rng(J, 0, vg(s).n.e), arg(sel(vg(s).el, J).e) == fn(J)), sel(vg(s).el, J).e)))
        return out
    return t


def effects(fn, at_, n_of, where, what, args):
    @spec("C28", MOD, fn, **OPT)
    def f(v):
        a, o = v.pre[0], v.pre[1]
        n = n_of(a)
        if isinstance(a, Dict):
            saturate(v, a)
        v.requires(forall(J, implies(rng(J, 0, n), z3.And(where(a, J) >= 0, where(a, J) < o.n.e)), at_(a, J)))
        v.template(tickets([lambda j, g=g: g(a, j) for g in args], None))

        def done(u, hi):
            return z3.And(u.n.e == o.n.e, forall(J, implies(rng(J, 0, hi), z3.Select(u.el.e, where(a, J)) == what(a, J)), at_(a, J)),
                          forall(J2, z3.Or(z3.Select(u.el.e, J2) == z3.Select(o.el.e, J2), z3.Exists([J], z3.And(rng(J, 0, hi), where(a, J) == J2))), z3.Select(u.el.e, J2)))

        def t(ctx):
            out = []
            for vn, vg in ctx.of(Vec):
                if isinstance(vg(ctx.entry).el, Leaf) and vg(ctx.entry).el.kind == "f64":
                    for n_, g in ctx.of(Iter):
                        out.append(("written so far %s %s" % (vn, n_), lambda s, vg=vg, g=g: done(vg(s), g(s).pos)))
            return out
        v.template(t)
        for p in v.run():
            u = p.out(1)
            p.ensure("every element's effect has happened", forall(J, implies(rng(J, 0, n), z3.Select(u.el.e, where(a, J)) == what(a, J)), at_(a, J)))
            p.ensure("nothing else is written", forall(J2, z3.Or(z3.Select(u.el.e, J2) == z3.Select(o.el.e, J2), z3.Exists([J], z3.And(rng(J, 0, n), where(a, J) == J2))), z3.Select(u.el.e, J2)))
    return f


xs_at = lambda a, j: sel(a.el, j).e
effects("effects", xs_at, lambda a: a.n.e, xs_at, lambda a, j: f_(xs_at(a, j)), [xs_at])

effects("map_value_effects", lambda a, j: val(a, nth(a.dom.e, j)), lambda a: size(a.dom.e), lambda a, j: val(a, nth(a.dom.e, j)), lambda a, j: f_(val(a, nth(a.dom.e, j))), [lambda a, j: val(a, nth(a.dom.e, j))])
for _fn in ("map_effects", "grouped_effects"):
    effects(_fn, lambda a, j: nth(a.dom.e, j), lambda a: size(a.dom.e), lambda a, j: nth(a.dom.e, j), lambda a, j: g_(nth(a.dom.e, j), val(a, nth(a.dom.e, j))), [lambda a, j: nth(a.dom.e, j), lambda a, j: val(a, nth(a.dom.e, j))])
