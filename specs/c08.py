"""C08: grouping partitions the data; filtering, applying and recombining act on exactly those groups."""
import re
import cxx
from speclib import *
from c10 import mat_is, vec_eq, at, I_, J_
from c07 import DS, valid_ds, CAP, ind, subset_contract, tiles, ident, marginals_of

MOD = "groups"
S = MOD
key = smt.uf("vpx::key", INT, INT)
KK = z3.Int("qk")
R = z3.Int("qr")


def rank2(v, keyfn, name="rank"):
    """ghost rank(k, i): how many positions below i have key k (with its lemmas, induction checked)"""
    f = z3.Function(fresh_name(name), INT, INT, INT)
    g = z3.Function(fresh_name(name + "_"), INT, INT, INT)
    k, i, j = z3.Ints("rk ri rj")
    one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
    v.requires(forall([k, i], z3.And(f(k, i) == g(k, i), implies(i == 0, f(k, i) == 0),
                                     implies(i >= 1, f(k, i) == g(k, i - 1) + one(keyfn(i - 1) == k))), f(k, i)))
    v.requires(forall([k, i, j], implies(z3.And(0 <= i, i <= j), z3.And(g(k, i) <= g(k, j), implies(z3.And(i < j, keyfn(i) == k), g(k, i) < g(k, j)))),
                      z3.MultiPattern(g(k, i), g(k, j))))
    v.requires(forall([k, i], implies(0 <= i, z3.And(g(k, i) >= 0, g(k, i) <= i)), g(k, i)))
    h = z3.Function(fresh_name(name + "L"), INT, INT)
    is_k = z3.Function(fresh_name(name + "K"), INT, BOOL)
    a, b = z3.Ints("ca cb")
    st = [h(0) == 0, h(b + 1) == h(b) + one(is_k(b)), h(a + 1) == h(a) + one(is_k(a))]
    P = lambda x, y: implies(z3.And(0 <= x, x <= y), z3.And(h(x) <= h(y), implies(z3.And(x < y, is_k(x)), h(x) < h(y))))
    from exec import Obligation
    ob = v.ex.obls
    ob.append(Obligation(v.name + ":ghost rank monotone (base)", [], P(a, a), "lemma", "lemma"))
    ob.append(Obligation(v.name + ":ghost rank monotone (step)", st + [0 <= a, a <= b, P(a, b)], P(a, b + 1), "lemma", "lemma"))
    ob.append(Obligation(v.name + ":ghost rank bounded (step)", st + [0 <= b, h(b) >= 0, h(b) <= b], z3.And(h(b + 1) >= 0, h(b + 1) <= b + 1), "lemma", "lemma"))
    f.limited = g
    return f


def has(d, k):
    return z3.Select(d.dom.e, k)


class Partition:
    """d maps every key to the ascending list of positions below n having it"""

    def __init__(self, keyfn, rank, vis):
        self.key, self.rank, self.vis = keyfn, rank, vis

    def covers(self, d, n):
        g = self.rank.limited
        l = sel(d.val, self.key(J))
        return forall(J, implies(rng(J, 0, n), z3.And(has(d, self.key(J)), g(self.key(J), J) >= 0, g(self.key(J), J) < l.n.e,
                                                      sel(l.el, g(self.key(J), J)).e == J)), self.vis(J))

    def sizes(self, d, n):
        l = sel(d.val, KK)
        return forall(KK, z3.And(implies(has(d, KK), z3.And(l.n.e == self.rank(KK, n), l.n.e > 0)), implies(z3.Not(has(d, KK)), self.rank(KK, n) == 0)), has(d, KK))

    def only(self, d, n):
        l = sel(d.val, KK)
        e = sel(l.el, R).e
        return forall([KK, R], implies(z3.And(has(d, KK), rng(R, 0, l.n.e)), z3.And(rng(e, 0, n), self.key(e) == KK, self.rank.limited(KK, e) == R)), e)

    def ascending(self, d):
        l = sel(d.val, KK)
        q = z3.Int("qs")
        return forall([KK, R, q], implies(z3.And(has(d, KK), rng(R, 0, l.n.e), rng(q, 0, l.n.e), R < q), sel(l.el, R).e < sel(l.el, q).e))

    def all(self, d, n):
        return z3.And(self.covers(d, n), self.sizes(d, n), self.only(d, n))

    def template(self, v, n):
        def t(ctx):
            out = []
            for dn, dg in ctx.of(Dict):
                if not isinstance(dg(ctx.entry).val, Vec):
                    continue
                for pn, pg in ctx.ints():
                    b = lambda s, pg=pg: z3.And(pg(s) >= 0, pg(s) <= n)
                    out += [("position %s" % pn, b),
                            ("covers %s %s" % (dn, pn), lambda s, dg=dg, pg=pg: self.covers(dg(s), pg(s))),
                            ("sizes %s %s" % (dn, pn), lambda s, dg=dg, pg=pg: self.sizes(dg(s), pg(s))),
                            ("only %s %s" % (dn, pn), lambda s, dg=dg, pg=pg: self.only(dg(s), pg(s)))]
                    for n2, it in ctx.of(Iter):
                        out.append(("in step %s %s" % (pn, n2), lambda s, it=it, pg=pg: it(s).pos == pg(s)))
            for pn, pg in ctx.ints():
                for n2, it in ctx.of(Iter):
                    out.append(("in step %s %s" % (pn, n2), lambda s, it=it, pg=pg: it(s).pos == pg(s)))
            return out
        v.template(t)


def part_of(v, feats):
    kf = lambda j: key(sel(feats.el, j).e)
    return Partition(kf, rank2(v, kf), lambda j: sel(feats.el, j).e)


def partition_posts(p, P, d, n):
    p.ensure("every element is in the group of its own key", P.covers(d, n))
    p.ensure("a group per key present, holding as many elements", P.sizes(d, n))
    p.ensure("only elements with that key", P.only(d, n))
    p.ensure("original order within a group", P.ascending(d))


@spec("C08", MOD, "indexer")
def indexer(v):
    a = v.pre[0]
    P = part_of(v, a)
    P.template(v, a.n.e)
    for p in v.run():
        partition_posts(p, P, p.ret, a.n.e)


@spec("C08", MOD, "indexer_ds")
def indexer_ds(v):
    valid_ds(v, v.pre[0])
    a = DS(v.pre[0]).features
    P = part_of(v, a)
    P.template(v, a.n.e)
    for p in v.run():
        partition_posts(p, P, p.ret, a.n.e)


@spec("C08", MOD, "kfold")
def kfold(v):
    a, k = v.pre[0], v.a(1)
    v.requires(k >= 1)
    md = z3.Function(fresh_name("fold"), INT, INT)
    v.requires(forall(J, implies(J >= 0, z3.And(md(J) == J % k)), [J % k, md(J)]))
    rk = rank2(v, md)
    P = Partition(md, rk, md)
    P.template(v, a.n.e)
    for p in v.run():
        partition_posts(p, P, p.ret, a.n.e)


@spec("C08", MOD, "loo")
def loo(v):
    a = v.pre[0]

    def single(d, n):
        l = sel(d.val, KK)
        return z3.And(forall(KK, has(d, KK) == rng(KK, 0, n), has(d, KK)),
                      forall(KK, implies(rng(KK, 0, n), z3.And(l.n.e == 1, sel(l.el, z3.IntVal(0)).e == KK)), [l.n.e, has(d, KK), sel(l.el, z3.IntVal(0)).e]))

    def t(ctx):
        out = []
        for pn, pg in ctx.ints():
            for dn, dg in ctx.of(Dict):
                out.append(("singletons %s %s" % (dn, pn), lambda s, dg=dg, pg=pg: single(dg(s), pg(s))))
            for n2, it in ctx.of(Iter):
                out.append(("in step %s %s" % (pn, n2), lambda s, it=it, pg=pg: it(s).pos == pg(s)))
            out.append(("range %s" % pn, lambda s, pg=pg: z3.And(pg(s) >= 0, pg(s) <= a.n.e)))
        return out
    v.template(t)
    for p in v.run():
        p.ensure("one group per index holding just it", single(p.ret, a.n.e))


# ---- contracts proved above / in C07, used by the operations on groups
def build_contract(v, feats, box):
    """IndexerBuilder::build, proved as indexer / indexer_ds"""
    def h(c):
        ex, st = c.ex, c.st
        if c.sret is None:
            return NotImplemented
        P = box.setdefault("P", part_of_quiet(v, feats))
        d = ex.fresh(st, cxx.parse_type("std::map<int, std::vector<unsigned long, std::allocator<unsigned long>>, std::less<int>, std::allocator<std::pair<int const, std::vector<unsigned long, std::allocator<unsigned long>>>>>"), "idx")
        st.assume(P.all(d, feats.n.e))
        st.assume(saturation(d))
        box["d"] = d
        ex.write(st, c.sret, d)
        return [(st, None)]
    return h


def saturation(d):
    A = d.dom.e
    return z3.ForAll([KK], implies(z3.Select(A, KK), z3.And(idx(A, KK) >= 0, idx(A, KK) < size(A), nth(A, idx(A, KK)) == KK)), patterns=[z3.Select(A, KK)])


def part_of_quiet(v, feats):
    return part_of(v, feats)


def list_subset(c):
    """subset(vector, indices), proved as C07 sub_list"""
    if not (c.params and c.params[0].startswith("std::vector<int")) or c.sret is None:
        return NotImplemented
    ex, st = c.ex, c.st
    ty = cxx.parse_type(c.params[0])
    if ty.k == "ptr":
        ty = ty.tgt
    src, ix = ex.node_at(st, c.args[0]), ex.node_at(st, c.args[1])
    e = ind(ix, J)
    ex.oblige(st, "subset: indices in range", forall(J, implies(rng(J, 0, ix.n.e), rng(e, 0, src.n.e)), e), "pre")
    out = ex.fresh(st, ty, "sub")
    st.assume(vec_is(out, ix.n.e, lambda j: sel(src.el, ind(ix, j))))
    return c.ret(out)


GC = {"albatross::IndexerBuilder::build": lambda c: c.ex.build_h(c), "albatross::subset": list_subset}


def grouped(fn, **kw):
    def deco(f):
        @spec("C08", MOD, fn, contracts=GC, **kw)
        def g(v):
            a = v.pre[0]
            box = {}
            P = part_of(v, a)
            box["P"] = P
            v.ex.build_h = build_contract(v, a, box)
            f(v, a, P, box)
        return g
    return deco


@grouped("groups")
def groups(v, a, P, box):
    def ok(d, done):
        """every group already visited holds the elements at its positions"""
        l = sel(d.val, KK)
        src = sel(box["d"].val, KK)
        e = sel(l.el, R).e
        return z3.And(forall(KK, has(d, KK) == done(KK), has(d, KK)),
                      forall(KK, implies(done(KK), l.n.e == src.n.e), [l.n.e, has(d, KK)]),
                      forall([KK, R], implies(z3.And(done(KK), rng(R, 0, src.n.e)), e == sel(a.el, sel(src.el, R).e).e), [e]))

    def t(ctx):
        if "d" not in box:
            return []
        dom = box["d"].dom.e
        out = []
        for dn, dg in ctx.of(Dict):
            if not isinstance(dg(ctx.entry).val, Vec):
                continue
            for n, g in ctx.of(Iter):
                out.append(("visited %s %s" % (dn, n), lambda s, dg=dg, g=g: ok(dg(s), lambda k: z3.And(z3.Select(dom, k), idx(dom, k) < g(s).pos))))
        return out
    v.template(t)
    for p in v.run():
        rk = P.rank
        d = p.ret
        k = P.key(J)
        l = sel(d.val, k)
        p.ensure("every element is in the group of its own key", forall(J, implies(rng(J, 0, a.n.e), z3.And(has(d, k), rng(rk.limited(k, J), 0, l.n.e),
                 sel(l.el, rk.limited(k, J)).e == sel(a.el, J).e)), sel(a.el, J).e))
        l = sel(d.val, KK)
        p.ensure("group sizes", forall(KK, z3.And(implies(has(d, KK), z3.And(l.n.e == rk(KK, a.n.e), l.n.e > 0)), implies(z3.Not(has(d, KK)), rk(KK, a.n.e) == 0)), has(d, KK)))


@grouped("counts")
def counts(v, a, P, box):
    def t(ctx):
        if "d" not in box:
            return []
        dom = box["d"].dom.e
        out = []
        for dn, dg in ctx.of(Dict):
            for n, g in ctx.of(Iter):
                def inv(s, dg=dg, g=g):
                    d = dg(s)
                    done = z3.And(z3.Select(dom, KK), idx(dom, KK) < g(s).pos)
                    return z3.And(forall(KK, has(d, KK) == done, has(d, KK)),
                                  forall(KK, implies(has(d, KK), z3.Select(d.val.e, KK) == sel(box["d"].val, KK).n.e), z3.Select(d.val.e, KK)))
                out.append(("counted %s %s" % (dn, n), inv))
        return out
    v.template(t)
    for p in v.run():
        d = p.ret
        p.ensure("number of elements per key", forall(KK, z3.And(implies(has(d, KK), z3.And(z3.Select(d.val.e, KK) == P.rank(KK, a.n.e), z3.Select(d.val.e, KK) > 0)),
                                                                  implies(z3.Not(has(d, KK)), P.rank(KK, a.n.e) == 0)), has(d, KK)))


@grouped("size")
def gsize(v, a, P, box):
    for p in v.run():
        p.ensure("number of keys", p.ret == size(box["d"].dom.e))


@grouped("keys")
def gkeys(v, a, P, box):
    v.template(vec_prefix(lambda j: nth(box["d"].dom.e, j) if "d" in box else z3.IntVal(0)))
    for p in v.run():
        dom = box["d"].dom.e
        p.ensure("the keys present in order", vec_is(p.ret, size(dom), lambda j: nth(dom, j)))
        p.ensure("key of every element listed", forall(J, implies(rng(J, 0, a.n.e), z3.And(rng(idx(dom, P.key(J)), 0, p.ret.n.e),
                 sel(p.ret.el, idx(dom, P.key(J))).e == P.key(J))), sel(a.el, J).e))


@grouped("get_group")
def get_group(v, a, P, box):
    k = v.a(1)
    w = z3.Int("witness")
    v.requires(z3.And(rng(w, 0, a.n.e), P.key(w) == k))
    for p in v.run():
        r = p.ret
        p.ensure("all elements with that key", z3.And(r.n.e == P.rank(k, a.n.e), forall(J, implies(z3.And(rng(J, 0, a.n.e), P.key(J) == k), z3.And(
            rng(P.rank.limited(k, J), 0, r.n.e), sel(r.el, P.rank.limited(k, J)).e == sel(a.el, J).e)), sel(a.el, J).e)))


@grouped("get_group", name="get_group[missing]")
def get_group_missing(v, a, P, box):
    k = v.a(1)
    v.requires(P.rank(k, a.n.e) == 0)
    v.ex.allow_throw = True
    for p in v.run():
        p.ensure("an unknown key is rejected", z3.BoolVal(False))


@grouped("first_group")
def first_group(v, a, P, box):
    v.requires(a.n.e > 0)
    z = z3.IntVal(0)
    v.requires(z3.Int('first') == sel(a.el, z).e)
    for p in v.run():
        dom = box["d"].dom.e
        k, r = p.ret.d[0].e, p.ret.d[8]
        p.ensure("smallest key present", z3.And(k == nth(dom, z)))
        p.ensure("its elements", z3.And(r.n.e == P.rank(k, a.n.e), forall(J, implies(z3.And(rng(J, 0, a.n.e), P.key(J) == k), z3.And(
            rng(P.rank.limited(k, J), 0, r.n.e), sel(r.el, P.rank.limited(k, J)).e == sel(a.el, J).e)), sel(a.el, J).e)))


@grouped("index_apply")
def index_apply(v, a, P, box):
    counts_like(v, a, P, box)


def counts_like(v, a, P, box):
    def t(ctx):
        if "d" not in box:
            return []
        dom = box["d"].dom.e
        out = []
        for dn, dg in ctx.of(Dict):
            for n, g in ctx.of(Iter):
                def inv(s, dg=dg, g=g):
                    d = dg(s)
                    done = z3.And(z3.Select(dom, KK), idx(dom, KK) < g(s).pos)
                    return z3.And(forall(KK, has(d, KK) == done, has(d, KK)),
                                  forall(KK, implies(has(d, KK), z3.Select(d.val.e, KK) == sel(box["d"].val, KK).n.e), z3.Select(d.val.e, KK)))
                out.append(("applied %s %s" % (dn, n), inv))
        return out
    v.template(t)
    for p in v.run():
        d = p.ret
        p.ensure("applied to every group's indices", forall(KK, z3.And(has(d, KK) == z3.Select(box["d"].dom.e, KK),
                 implies(has(d, KK), z3.Select(d.val.e, KK) == sel(box["d"].val, KK).n.e)), has(d, KK)))


# ---- filtering and applying
keep = lambda x: smt.uf("vpx::keep", INT, BOOL)(x)
fv = smt.uf("vpx::value", REAL, REAL)
score = smt.uf("vpx::score", INT, REAL)


@spec("C08", MOD, "filter_v")
def filter_v(v):
    a = v.pre[0]
    e = lambda j: sel(a.el, j).e
    kept = z3.Function(fresh_name("kept"), INT, BOOL)
    v.requires(forall(J, kept(J) == keep(e(J)), [kept(J), e(J)]))
    c = count(v, "c", kept)
    v.template(selected(a, c, kept, e))
    for p in v.run():
        r = p.ret
        p.ensure("exactly the elements to keep, in order", z3.And(r.n.e == c(a.n.e), chosen(r, c, kept, e, a.n.e)))


def chosen(r, c, kept, e, hi):
    return forall(J, implies(z3.And(rng(J, 0, hi), kept(J)), z3.And(rng(c.limited(J), 0, r.n.e), sel(r.el, c.limited(J)).e == e(J))), e(J))


def selected(a, c, kept, e):
    def t(ctx):
        out = []
        for n, g in ctx.of(Vec):
            for pn, pg in ctx.ints():
                out.append(("chosen %s %s" % (n, pn), lambda s, g=g, pg=pg: z3.And(pg(s) >= 0, pg(s) <= a.n.e, g(s).n.e == c(pg(s)), chosen(g(s), c, kept, e, pg(s)))))
        return out
    return t


@spec("C08", MOD, "filter_d", contracts={"albatross::subset": subset_contract})
def filter_d(v):
    valid_ds(v, v.pre[0])
    s = DS(v.pre[0])
    a = s.features
    e = lambda j: sel(a.el, j).e
    kept = z3.Function(fresh_name("kept"), INT, BOOL)
    v.requires(forall(J, kept(J) == keep(e(J)), [kept(J), e(J)]))
    c = count(v, "c", kept)

    def t(ctx):
        out = []
        for n, g in ctx.of(Vec):
            for pn, pg in ctx.ints():
                def inv(st, g=g, pg=pg):
                    u = g(st)
                    x = sel(u.el, J).e
                    return z3.And(pg(st) >= 0, pg(st) <= a.n.e, u.n.e == c(pg(st)), chosen(u, c, kept, lambda j: j, pg(st)) if False else
                                  forall(J, implies(z3.And(rng(J, 0, pg(st)), kept(J)), z3.And(rng(c.limited(J), 0, u.n.e), sel(u.el, c.limited(J)).e == J)), e(J)),
                                  forall(J, implies(rng(J, 0, u.n.e), z3.And(rng(x, 0, pg(st)), kept(x), c.limited(x) == J)), x))
                out.append(("kept %s %s" % (n, pn), inv))
        return out
    v.template(t)
    for p in v.run():
        d = DS(p.ret)
        p.ensure("number kept", d.features.n.e == c(a.n.e))
        k = c.limited(J)
        p.ensure("exactly the elements to keep, in order and paired", forall(J, implies(z3.And(rng(J, 0, a.n.e), kept(J)), z3.And(
            rng(k, 0, d.features.n.e), sel(d.features.el, k).e == e(J), at(d.mean, k) == at(s.mean, J), at(d.var, k) == at(s.var, J))), e(J)))


def map_filter(fn, cond):
    @spec("C08", MOD, fn)
    def f(v):
        a = v.pre[0]
        A = a.dom.e
        saturate(v, a)
        ok = lambda k: cond(k, z3.Select(a.val.e, k))

        def t(ctx):
            out = []
            for dn, dg in ctx.of(Dict):
                for n, g in ctx.of(Iter):
                    def inv(s, dg=dg, g=g):
                        d = dg(s)
                        return z3.And(forall(KK, has(d, KK) == z3.And(z3.Select(A, KK), idx(A, KK) < g(s).pos, ok(KK)), has(d, KK)),
                                      forall(KK, implies(has(d, KK), z3.Select(d.val.e, KK) == z3.Select(a.val.e, KK)), [z3.Select(d.val.e, KK), has(d, KK)]))
                    out.append(("kept %s %s" % (dn, n), inv))
            return out
        v.template(t)
        for p in v.run():
            p.ensure("exactly the groups to keep", dict_is(p.ret, lambda k: z3.And(z3.Select(A, k), ok(k)), lambda k: z3.Select(a.val.e, k)))
    return f


map_filter("filter_m", lambda k, x: fv(x) > 0)
map_filter("filter_mk", lambda k, x: smt.uf("vpx::keep_keyed", INT, REAL, BOOL)(k, x))


def map_apply(fn, val):
    @spec("C08", MOD, fn)
    def f(v):
        a = v.pre[0]
        A = a.dom.e
        saturate(v, a)
        want = lambda k: val(k, z3.Select(a.val.e, k))

        def t(ctx):
            out = []
            for dn, dg in ctx.of(Dict):
                for n, g in ctx.of(Iter):
                    def inv(s, dg=dg, g=g):
                        d = dg(s)
                        return z3.And(forall(KK, has(d, KK) == z3.And(z3.Select(A, KK), idx(A, KK) < g(s).pos), has(d, KK)),
                                      forall(KK, implies(has(d, KK), z3.Select(d.val.e, KK) == want(KK)), [z3.Select(d.val.e, KK), has(d, KK)]))
                    out.append(("applied %s %s" % (dn, n), inv))
            return out
        v.template(t)
        for p in v.run():
            p.ensure("one result per group", dict_is(p.ret, lambda k: z3.Select(A, k), want))
    return f


map_apply("apply_m", lambda k, x: fv(x))
map_apply("apply_mk", lambda k, x: smt.uf("vpx::keyed", INT, REAL, REAL)(k, x))


@spec("C08", MOD, "apply_v")
def apply_v(v):
    a = v.pre[0]
    f = lambda j: score(sel(a.el, j).e)
    v.template(vec_prefix(f))
    for p in v.run():
        p.ensure("one result per element in order", vec_is(p.ret, a.n.e, f))


# ---- recombining
@spec("C08", MOD, "combine_s")
def combine_s(v):
    a = v.pre[0]
    A = a.dom.e
    f = lambda i, j: z3.Select(a.val.e, nth(A, i))
    from c07 import mats_upto
    v.template(vec_prefix(lambda j: f(j, 0)))
    v.template(mats_upto(f))

    def t(ctx):
        return [("in step %s %s" % (pn, n), lambda s, g=g, pg=pg: g(s).pos == pg(s)) for pn, pg in ctx.ints() for n, g in ctx.of(Iter)]
    v.template(t)
    for p in v.run():
        p.ensure("values in key order", mat_is(p.ret.e if isinstance(p.ret, Leaf) else p.ret, size(A), z3.IntVal(1), f))


@spec("C08", MOD, "combine_v")
def combine_v(v):
    a = v.pre[0]
    A = a.dom.e
    l = lambda i: sel(a.val, nth(A, i))
    v.requires(forall(J, l(J).n.e >= 0, l(J).n.e))
    off = prefix_sum(v, "off", lambda i: l(i).n.e)
    v.requires(off(size(A)) < CAP)

    def lists(u, hi):
        e = sel(u.el, J)
        if not isinstance(e, Leaf):
            return z3.BoolVal(True)
        s = sel(l(I_).el, J_).e
        return z3.And(u.n.e == off(hi), forall([I_, J_], implies(z3.And(rng(I_, 0, hi), rng(J_, 0, l(I_).n.e)), z3.Select(u.el.e, off.limited(I_) + J_) == s), s))

    def copied(u, hi):
        e = sel(u.el, J)
        if not isinstance(e, Vec):
            return z3.BoolVal(True)
        return z3.And(u.n.e == hi, forall(J, implies(rng(J, 0, hi), ident(e, l(J))), [x.e for x in leaves(e)]))

    def t(ctx):
        out = []
        for un, ug in ctx.of(Vec):
            for n, g in ctx.of(Iter):
                out.append(("copied %s %s" % (un, n), lambda s, g=g, ug=ug: z3.And(g(s).pos >= 0, g(s).pos <= size(A), copied(ug(s), g(s).pos))))
                out.append(("appended %s %s" % (un, n), lambda s, g=g, ug=ug: z3.And(g(s).pos >= 0, g(s).pos <= size(A), lists(ug(s), g(s).pos))))
        return out
    v.template(t)
    for p in v.run():
        p.ensure("groups appended in key order", lists(p.ret, size(A)))


for fn, pos in (("first_value", lambda n: z3.IntVal(0)), ("last_value", lambda n: n - 1)):
    @spec("C08", MOD, fn)
    def edge(v, pos=pos):
        a = v.pre[0]
        A = a.dom.e
        v.requires(size(A) > 0)
        for p in v.run():
            p.ensure("value of the extreme key", p.ret == z3.Select(a.val.e, nth(A, pos(size(A)))))


def accum(fn, term):
    @spec("C08", MOD, fn)
    def f(v):
        a = v.pre[0]
        A = a.dom.e
        acc = fold(v, "acc", REAL, z3.RealVal(0), lambda i, r: r + term(z3.Select(a.val.e, nth(A, i)), size(A)))

        def t(ctx):
            out = []
            for n, g in ctx.of(Iter):
                for rn, rg in ctx.reals():
                    out.append(("accumulated %s %s" % (rn, n), lambda s, g=g, rg=rg: z3.And(g(s).pos >= 0, g(s).pos <= size(A), rg(s) == acc(g(s).pos))))
            return out
        v.template(t)
        for p in v.run():
            p.ensure("over all groups", p.ret == acc(size(A)))
    return f


accum("sum", lambda x, n: x)
accum("mean", lambda x, n: x / z3.ToReal(n))


@spec("C08", MOD, "from_groups")
def from_groups(v):
    m, ks = v.pre
    l = lambda i: sel(m.val, sel(ks.el, i).e)
    v.requires(forall(J, implies(rng(J, 0, ks.n.e), has(m, sel(ks.el, J).e)), sel(ks.el, J).e))
    v.requires(forall(KK, sel(m.val, KK).n.e >= 0, sel(m.val, KK).n.e))
    off = prefix_sum(v, "off", lambda i: l(i).n.e)
    v.requires(off(ks.n.e) < CAP)

    def lists(u, hi):
        s = sel(l(I_).el, J_).e
        return z3.And(u.n.e == off(hi), forall([I_, J_], implies(z3.And(rng(I_, 0, hi), rng(J_, 0, l(I_).n.e)), z3.Select(u.el.e, off.limited(I_) + J_) == s), s))

    def t(ctx):
        return [("appended %s %s" % (un, n), lambda s, g=g, ug=ug: z3.And(g(s).pos >= 0, g(s).pos <= ks.n.e, lists(ug(s), g(s).pos)))
                for un, ug in ctx.of(Vec) for n, g in ctx.of(Iter)]
    v.template(t)
    for p in v.run():
        p.ensure("indices of the named groups in the order named", lists(p.ret, ks.n.e))


# ---- sets
@spec("C08", MOD, "filter_s")
def filter_s(v):
    a = v.pre[0]
    A = a.dom.e
    saturate(v, a)

    def t(ctx):
        return [("kept %s %s" % (dn, n), lambda s, dg=dg, g=g: forall(KK, has(dg(s), KK) == z3.And(z3.Select(A, KK), idx(A, KK) < g(s).pos, keep(KK)), has(dg(s), KK)))
                for dn, dg in ctx.of(Dict) for n, g in ctx.of(Iter)]
    v.template(t)
    for p in v.run():
        p.ensure("exactly the elements to keep", forall(KK, has(p.ret, KK) == z3.And(z3.Select(A, KK), keep(KK))))


def distinct(fn, val):
    @spec("C08", MOD, fn)
    def f(v):
        a = v.pre[0]
        e = lambda j: val(sel(a.el, j).e)
        # ghost: some position holding the value k (a partial inverse)
        w = z3.Function(fresh_name("where"), INT, INT, INT)

        def inv(d, hi):
            return z3.And(forall(J, implies(rng(J, 0, hi), has(d, e(J))), sel(a.el, J).e),
                          forall(KK, implies(has(d, KK), z3.Exists([J], z3.And(rng(J, 0, hi), e(J) == KK))), has(d, KK)))

        def t(ctx):
            out = []
            for dn, dg in ctx.of(Dict):
                for n, g in ctx.of(Iter):
                    out.append(("values so far %s %s" % (dn, n), lambda s, dg=dg, g=g: z3.And(g(s).pos >= 0, g(s).pos <= a.n.e, inv(dg(s), g(s).pos))))
            return out
        v.template(t)
        for p in v.run():
            p.ensure("every value is present", forall(J, implies(rng(J, 0, a.n.e), has(p.ret, e(J))), sel(a.el, J).e))
            p.ensure("nothing else is present", forall(KK, implies(has(p.ret, KK), z3.Exists([J], z3.And(rng(J, 0, a.n.e), e(J) == KK))), has(p.ret, KK)))
    return f


distinct("unique_v", lambda x: x)
distinct("unique_f", smt.uf("vpx::label", INT, INT))


def truth(fn, univ):
    @spec("C08", MOD, fn)
    def f(v):
        a = v.pre[0]
        A = a.dom.e
        saturate(v, a)
        val = lambda k: z3.Select(a.val.e, k)
        at_ = lambda j: val(nth(A, j))
        v.template(vec_prefix(at_))

        def t(ctx):
            return [("undecided so far " + pn, lambda s, pg=pg: z3.And(pg(s) >= 0, pg(s) <= size(A), forall(J, implies(rng(J, 0, pg(s)), at_(J) == z3.BoolVal(univ)), nth(A, J))))
                    for pn, pg in list(ctx.ints()) + [(q, (lambda s, h=h: h(s).pos)) for q, h in ctx.of(Iter)]]
        v.template(t)
        for p in v.run():
            r = p.ret if p.ret.sort() == BOOL else p.ret != 0
            if univ:
                p.ensure("true iff every value is", r == z3.ForAll([KK], implies(z3.Select(A, KK), val(KK))))
            else:
                p.ensure("true iff some value is", r == z3.Exists([KK], z3.And(z3.Select(A, KK), val(KK))))
    return f


truth("all_true", True)
truth("any_true", False)


@spec("C08", MOD, "complement")
def complement(v):
    ix, n = v.pre[0], v.a(1)
    v.requires(n < CAP)
    e = lambda j: sel(ix.el, j).e
    for p in v.run():
        r = p.ret
        q = z3.Int("cq")
        p.ensure("ascending", forall([J, q], implies(z3.And(rng(J, 0, r.n.e), rng(q, 0, r.n.e), J < q), sel(r.el, J).e < sel(r.el, q).e)))
        p.ensure("below n and not among the indices", forall(J, implies(rng(J, 0, r.n.e), z3.And(rng(sel(r.el, J).e, 0, n),
                 z3.ForAll([q], implies(rng(q, 0, ix.n.e), e(q) != sel(r.el, J).e)))), sel(r.el, J).e))
        k = z3.Int(fresh_name("index"))
        ensure_each(p, "every other index is included", k, implies(rng(k, 0, n), z3.Or(z3.Exists([q], z3.And(rng(q, 0, ix.n.e), e(q) == k)),
                    z3.Exists([J], z3.And(rng(J, 0, r.n.e), sel(r.el, J).e == k)))))


@spec("C08", MOD, "combine_d")
def combine_d(v):
    from c07 import cat_many
    a = v.pre[0]
    cat_many(v, lambda k: sel(a.val, nth(a.dom.e, k)), size(a.dom.e))


@spec("C08", MOD, "combine_e")
def combine_e(v):
    a = v.pre[0]
    A = a.dom.e
    src = lambda i: z3.Select(a.val.e, nth(A, i))
    v.requires(forall(J, z3.And(smt.rows(src(J)) >= 0, smt.cols(src(J)) == 1), src(J)))
    saturate(v, a)
    off = prefix_sum(v, "off", lambda i: smt.rows(src(i)))
    v.requires(off(size(A)) < CAP)

    def t(ctx):
        out = []
        for n, g in ctx.of(Iter):
            b = lambda s, g=g: z3.And(g(s).pos >= 0, g(s).pos <= size(A))
            for pn, pg in ctx.ints():
                out.append(("offset %s %s" % (pn, n), lambda s, g=g, pg=pg: z3.And(b(s, g), pg(s) == off(g(s).pos))))
            for mn, mg in ctx.mats():
                out.append(("tiles %s %s" % (mn, n), lambda s, g=g, mg=mg: tiles(mg(s).e, src, off, g(s).pos)))
            for un, ug in ctx.of(Vec):
                def cp(s, ug=ug, g=g):
                    u = ug(s)
                    if not isinstance(u.el, Leaf) or u.el.kind != "mat":
                        return None
                    return z3.And(u.n.e == g(s).pos, forall(J, implies(rng(J, 0, g(s).pos), z3.Select(u.el.e, J) == src(J)), z3.Select(u.el.e, J)))
                out.append(("copied %s %s" % (un, n), cp))
            for dn, dg in ctx.of(Dict):
                def sz_(s, dg=dg, g=g):
                    d = dg(s)
                    if not isinstance(d.val, Leaf) or d.val.e.sort().range() != INT:
                        return None
                    return z3.And(b(s, g), forall(KK, has(d, KK) == z3.And(z3.Select(A, KK), idx(A, KK) < g(s).pos), has(d, KK)),
                                  forall(KK, implies(has(d, KK), z3.Select(d.val.e, KK) == smt.rows(z3.Select(a.val.e, KK))), z3.Select(d.val.e, KK)))
                out.append(("sizes %s %s" % (dn, n), sz_))
        return out
    v.template(t)
    for p in v.run():
        m = p.ret.e if isinstance(p.ret, Leaf) else p.ret
        p.ensure("total size", smt.rows(m) == off(size(A)))
        p.ensure("vectors appended in key order", tiles(m, src, off, size(A)))


@spec("C08", MOD, "groups_ds", contracts={"albatross::IndexerBuilder::build": lambda c: c.ex.build_h(c), "albatross::subset": subset_contract})
def groups_ds(v):
    valid_ds(v, v.pre[0])
    s = DS(v.pre[0])
    a = s.features
    box = {}
    P = box["P"] = part_of(v, a)
    v.ex.build_h = build_contract(v, a, box)

    def ok(d, done):
        o = DS(sel(d.val, KK))
        src = sel(box["d"].val, KK)
        w = sel(src.el, R).e
        return z3.And(forall(KK, has(d, KK) == done(KK), has(d, KK)),
                      forall(KK, implies(done(KK), z3.And(o.features.n.e == src.n.e, smt.rows(o.mean) == src.n.e, smt.rows(o.var) == src.n.e)), [o.features.n.e, has(d, KK), smt.rows(o.mean), smt.rows(o.var)]),
                      forall([KK, R], implies(z3.And(done(KK), rng(R, 0, src.n.e)), z3.And(sel(o.features.el, R).e == sel(a.el, w).e, at(o.mean, R) == at(s.mean, w),
                                                                                          at(o.var, R) == at(s.var, w))), [sel(o.features.el, R).e, at(o.mean, R), at(o.var, R)]))

    def t(ctx):
        if "d" not in box:
            return []
        dom = box["d"].dom.e
        return [("visited %s %s" % (dn, n), lambda st, dg=dg, g=g: ok(dg(st), lambda k: z3.And(z3.Select(dom, k), idx(dom, k) < g(st).pos)))
                for dn, dg in ctx.of(Dict) if isinstance(dg(ctx.entry).val, Struct) for n, g in ctx.of(Iter)]
    v.template(t)
    for p in v.run():
        d = p.ret
        k = P.key(J)
        r = P.rank.limited(k, J)
        o = DS(sel(d.val, k))
        p.ensure("every element is in the group of its own key with its own target", forall(J, implies(rng(J, 0, a.n.e), z3.And(has(d, k), rng(r, 0, o.features.n.e),
                 sel(o.features.el, r).e == sel(a.el, J).e, at(o.mean, r) == at(s.mean, J), at(o.var, r) == at(s.var, J))), sel(a.el, J).e))
        n = DS(sel(d.val, KK)).features.n.e
        p.ensure("group sizes", forall(KK, z3.And(implies(has(d, KK), z3.And(n == P.rank(KK, a.n.e), n > 0)), implies(z3.Not(has(d, KK)), P.rank(KK, a.n.e) == 0)), has(d, KK)))
