"""C22: variant conversions, extraction and concatenation keep every element's alternative, value and order."""
from speclib import *
from contracts_variant import slot

MOD = "variants"
NT = ["i", "d"]
WT = ["s", "d", "i"]
TW = {"N": NT, "W": WT, "NS": ["i", "d", "s"], "SN": ["s", "i", "d"], "ID": ["i", "d"]}


def holds(e, types, t):
    return e.d[0].e == len(types) - 1 - types.index(t)


def payload(e, types, t):
    return e.d[slot(types.index(t))].e


def carries(out, otypes, src, stypes):
    """out holds the same alternative and value as src (src a variant struct, or ('d', term) for a plain value)"""
    if isinstance(src, tuple):
        return z3.And(holds(out, otypes, src[0]), payload(out, otypes, src[0]) == src[1])
    return z3.And([implies(holds(src, stypes, t), z3.And(holds(out, otypes, t), payload(out, otypes, t) == payload(src, stypes, t)))
                   for t in stypes])


def valid(v, node, types):
    """a variant always holds one of its alternatives"""
    e = sel(node.el, J)
    v.requires(forall(J, z3.And(e.d[0].e >= 0, e.d[0].e < len(types)), e.d[0].e))


def src_at(node, types, off=None):
    def f(j):
        e = sel(node.el, j if off is None else j - off)
        if isinstance(types, list):
            return e
        return (types, e.e)
    return f


def elementwise(fn, otypes, stypes, out=None):
    @spec("C22", MOD, fn)
    def f(v):
        a = v.pre[0]
        if isinstance(stypes, list):
            valid(v, a, stypes)
        at = src_at(a, stypes)

        def good(o):
            e = sel(o.el, J)
            return carries(e, otypes, at(J), stypes)

        def pats(o):
            return [l.e for l in leaves(sel(o.el, J))] + [l.e for l in leaves(sel(a.el, J))]

        def t(ctx):
            r = []
            for n, g in ctx.of(Vec):
                for pn, pg in ctx.ints():
                    r.append(("converted %s %s" % (n, pn), lambda s, g=g, pg=pg: z3.And(
                        g(s).n.e == a.n.e, forall(J, implies(rng(J, 0, pg(s)), good(g(s))), pats(g(s))))))
            return r
        v.template(t)
        for p in v.run():
            o = p.ret if out is None else p.out(out)
            p.ensure("same number of elements", o.n.e == a.n.e)
            p.ensure("held alternative and value kept in order", forall(J, implies(rng(J, 0, a.n.e), good(o))))
    return f


elementwise("widen", WT, NT)
elementwise("widen_same", WT, WT)
elementwise("wrap_double", WT, "d")
elementwise("wrap_string", WT, "s")
elementwise("set_many", WT, NT, out=1)


@spec("C22", MOD, "set_one")
def set_one(v):
    a = v.pre[0]
    v.requires(z3.And(a.d[0].e >= 0, a.d[0].e < 2))
    for p in v.run():
        p.ensure("alternative and value kept", carries(p.out(1), WT, a, NT))


@spec("C22", MOD, "set_plain")
def set_plain(v):
    for p in v.run():
        p.ensure("alternative and value kept", carries(p.out(1), WT, ("i", v.a(0)), None))


def extract(fn, t):
    @spec("C22", MOD, fn)
    def f(v):
        a = v.pre[0]
        valid(v, a, WT)
        at = lambda j: sel(a.el, j)
        c = count(v, "held", lambda j: holds(at(j), WT, t))

        def kept(o, hi):
            return z3.And(o.n.e == c(hi), forall(J, implies(z3.And(rng(J, 0, hi), holds(at(J), WT, t)),
                                                            z3.Select(o.el.e, c.limited(J)) == payload(at(J), WT, t)),
                                                 [at(J).d[0].e, c.limited(J)]))

        def tt(ctx):
            r = []
            for n, g in ctx.of(Vec):
                for pn, pg in list(ctx.ints()) + [(q, (lambda s, h=h: h(s).pos)) for q, h in ctx.of(Iter)]:
                    r.append(("extracted %s %s" % (n, pn), lambda s, g=g, pg=pg: kept(g(s), pg(s))))
                    r.append(("in range %s" % pn, lambda s, pg=pg: z3.And(pg(s) >= 0, pg(s) <= a.n.e)))
            return r
        v.template(tt)
        for p in v.run():
            p.ensure("one element per held alternative", p.ret.n.e == c(a.n.e))
            p.ensure("values in order", kept(p.ret, a.n.e))
    return f


extract("extract_double", "d")
extract("extract_int", "i")
extract("extract_string", "s")


def cat(fn, otypes, at, bt):
    @spec("C22", MOD, fn)
    def f(v):
        a, b = v.pre
        n, m = a.n.e, b.n.e
        for x, ty in ((a, at), (b, bt)):
            if isinstance(ty, list):
                valid(v, x, ty)
        sa, sb = src_at(a, at), src_at(b, bt, n)

        def elem(o, s, ty):
            e = sel(o.el, J)
            if otypes is None:
                return e.e == s(J)[1]
            return carries(e, otypes, s(J), ty)

        def upto(o, hi):
            pats = [l.e for l in leaves(sel(o.el, J))]
            return z3.And(forall(J, implies(z3.And(rng(J, 0, hi), J < n), elem(o, sa, at)), pats),
                          forall(J, implies(z3.And(rng(J, 0, hi), J >= n), elem(o, sb, bt)), pats))

        def tt(ctx):
            r = []
            for nm, g in ctx.of(Vec):
                r.append(("appended %s" % nm, lambda s, g=g: upto(g(s), g(s).n.e)))
                for pn, h in ctx.of(Iter):
                    r.append(("length %s %s" % (nm, pn), lambda s, g=g, h=h: g(s).n.e == h(s).pos))
                    r.append(("length %s n+%s" % (nm, pn), lambda s, g=g, h=h: g(s).n.e == n + h(s).pos))
            return r
        v.template(tt)
        for p in v.run():
            p.ensure("lengths add up", p.ret.n.e == n + m)
            p.ensure("elements keep alternative, value and order", upto(p.ret, n + m))
    return f


cat("cat_same", None, "d", "d")
cat("cat_variants", WT, WT, WT)
cat("cat_diff", ["i", "d"], "i", "d")
cat("cat_in_right", NT, "d", NT)
cat("cat_new_right", ["s", "i", "d"], "s", NT)
cat("cat_in_left", NT, NT, "i")
cat("cat_new_left", ["i", "d", "s"], NT, "s")


@spec("C22", MOD, "cat_many")
def cat_many(v):
    a = v.pre[0]
    one = lambda i: sel(a.el, i)
    I = z3.Int("i")
    v.requires(forall(I, z3.And(one(I).n.e >= 0, one(I).n.e <= 2 ** 40), one(I).n.e))
    off = prefix_sum(v, "off", lambda i: one(i).n.e)
    at = lambda i, k: z3.Select(one(i).el.e, k)

    def placed(o, hi):
        return z3.And(o.n.e == off(hi), forall([I, J], implies(z3.And(rng(I, 0, hi), rng(J, 0, one(I).n.e)),
                                                               z3.Select(o.el.e, off.limited(I) + J) == at(I, J)), at(I, J)))

    def tt(ctx):
        return [("placed %s %s" % (n, pn), lambda s, g=g, h=h: z3.And(h(s).pos >= 0, h(s).pos <= a.n.e, placed(g(s), h(s).pos)))
                for n, g in ctx.of(Vec) for pn, h in ctx.of(Iter)]
    v.template(tt)
    for p in v.run():
        p.ensure("every list appended in order", placed(p.ret, a.n.e))
