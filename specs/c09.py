"""C09: folds complement each other and per-fold predictions reassemble in the original order."""
import cxx
from speclib import *
from c10 import mat_is, vec_eq, at, mean, cov, I_, J_
from c07 import DS, valid_ds, valid_indices, CAP, ind, mats_upto, rows_of
from c08 import has, KK, R, saturation, list_subset

MOD = "folds"
Q = z3.Int("cq")
IX = "std::vector<unsigned long, std::allocator<unsigned long>>"


def parts(n):
    """fields of a fold: train dataset, test dataset, test indices"""
    at_ = lambda o: Struct({k: n.d[o + k] for k in (0, 24, 88)}, None)
    return DS(at_(0)), DS(at_(152)), n.d[304]


def distinct(ix):
    e = lambda j: sel(ix.el, j).e
    return forall([J, Q], implies(z3.And(rng(J, 0, ix.n.e), rng(Q, 0, ix.n.e), J != Q), e(J) != e(Q)), z3.MultiPattern(e(J), e(Q)))


def skolems(p, name):
    """constants introduced under a name by a library contract: instantiation hints"""
    out, seen, st = [], set(), list(p.st.facts)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_const(e) and e.decl().name().startswith(name) and e.sort() == INT:
            out.append(e)
        st.extend(e.children())
    return out


def compl_facts(r, ix, n):
    e = lambda j: sel(ix.el, j).e
    x = sel(r.el, J).e
    asc = forall([J, Q], implies(z3.And(rng(J, 0, r.n.e), rng(Q, 0, r.n.e), J < Q), sel(r.el, J).e < sel(r.el, Q).e), z3.MultiPattern(sel(r.el, J).e, sel(r.el, Q).e))
    no = forall(J, implies(rng(J, 0, r.n.e), rng(x, 0, n)), x)
    no2 = forall([J, Q], implies(z3.And(rng(J, 0, r.n.e), rng(Q, 0, ix.n.e)), e(Q) != x), z3.MultiPattern(e(Q), x))
    return asc, no, no2


def every(r, ix, n, k):
    return implies(rng(k, 0, n), z3.Or(z3.Exists([Q], z3.And(rng(Q, 0, ix.n.e), sel(ix.el, Q).e == k)),
                                       z3.Exists([J], z3.And(rng(J, 0, r.n.e), sel(r.el, J).e == k))))


@spec("C09", MOD, "complement")
def complement(v):
    ix, n = v.pre[0], v.a(1)
    v.requires(n < CAP)
    v.requires(n >= 0)
    for p in v.run():
        r = p.ret
        asc, no, no2 = compl_facts(r, ix, n)
        p.ensure("ascending", asc)
        p.ensure("below n", no)
        p.ensure("not among the indices", no2)
        k = z3.Int(fresh_name("index"))
        ensure_each(p, "every other index is included", k, every(r, ix, n, k))


@spec("C09", MOD, "complement", name="complement[size]")
def complement_size(v):
    """distinct test indices leave exactly the remaining number of training indices"""
    ix, n = v.pre[0], v.a(1)
    valid_indices(v, ix, n)
    v.requires(n < CAP)
    v.requires(n >= 0)
    v.requires(distinct(ix))
    for p in v.run():
        ensure_each(p, "sizes add up", skolems(p, "notin"), p.ret.n.e == n - ix.n.e)


def complement_contract(box):
    def h(c):
        ex, st = c.ex, c.st
        ix, n = ex.node_at(st, c.args[0]), box["n"]
        got = c.args[1]
        ex.oblige(st, "complement: within the dataset", ex.num(got) == n if hasattr(ex, "num") else got.e == n, "pre")
        e = sel(ix.el, J).e
        ex.oblige(st, "complement: valid indices", forall(J, implies(rng(J, 0, ix.n.e), rng(e, 0, n)), e), "pre")
        ex.oblige(st, "complement: distinct indices", distinct(ix), "pre")
        r = ex.fresh(st, cxx.parse_type(IX), "comp")
        for f in compl_facts(r, ix, n):
            st.assume(f)
        st.assume(r.n.e == n - ix.n.e)
        box["r"] = r
        return c.ret(r)
    return h


@spec("C09", MOD, "create", contracts={"albatross::indices_complement": lambda c: c.ex.comp_h(c), "albatross::subset": list_subset})
def create(v):
    ix, a = v.pre
    valid_ds(v, a)
    s = DS(a)
    n = s.features.n.e
    valid_indices(v, ix, n)
    v.requires(distinct(ix))
    box = {"n": n}
    v.ex.comp_h = complement_contract(box)
    f = lambda j: ind(ix, j)
    g = lambda j: sel(box["r"].el, j).e
    for h in (f, g):
        for m in (s.mean, s.var):
            v.template(lambda ctx, h=h, m=m: mats_upto(lambda i, j: at(m, h(i)))(ctx) if "r" in box else [])
    for p in v.run():
        train, test, ti = parts(p.ret)
        r = box["r"]
        rows_of(p, test, ix.n.e, f, s)
        rows_of(p, train, r.n.e, g, s)
        p.ensure("test indices recorded", vec_is(ti, ix.n.e, f))
        p.ensure("training and test rows make up the dataset", train.features.n.e + test.features.n.e == n)


ARR = z3.ArraySort(INT, INT)


class Complement:
    """the complement list of indices_complement as a function of the index list (it is a pure function: proved spec `complement`)"""

    def __init__(self, n):
        self.N = n
        self.nf = z3.Function(fresh_name("cn"), ARR, INT, INT)
        self.ef = z3.Function(fresh_name("ce"), ARR, INT, ARR)

    def of(self, ix):
        return Vec(Leaf("i64", self.nf(ix.el.e, ix.n.e)), Leaf("i64", self.ef(ix.el.e, ix.n.e), (INT,)), None)

    def facts(self, ix):
        r = self.of(ix)
        return list(compl_facts(r, ix, self.N)) + [r.n.e == self.N - ix.n.e]


def fold_rows(o, ix, r, s, cond, vs):
    """fold o (a term over vs) consists of the rows ix (test) and r (train) of dataset s"""
    train, test, ti = parts(o)
    out = []
    # also trigger on the sizes
    sz = z3.And(ti.n.e == ix.n.e, *[z3.And(d.features.n.e == w.n.e, smt.rows(d.mean) == w.n.e, smt.rows(d.var) == w.n.e, smt.cols(d.mean) == 1, smt.cols(d.var) == 1)
                                    for d, w in ((test, ix), (train, r))])
    trig = [ti.n.e] + [x for d in (test, train) for x in (d.features.n.e, smt.rows(d.mean), smt.rows(d.var), smt.cols(d.mean), smt.cols(d.var))]
    out.append(forall(vs, implies(cond, sz), trig) if vs else implies(cond, sz))
    t = sel(ti.el, R).e
    out.append(forall(vs + [R], implies(z3.And(cond, rng(R, 0, ix.n.e)), t == ind(ix, R)), t))
    for d, w in ((test, ix), (train, r)):
        x = ind(w, R)
        terms = [sel(d.features.el, R).e, at(d.mean, R), at(d.var, R)]
        src = [sel(s.features.el, x).e, at(s.mean, x), at(s.var, x)]
        out.append(forall(vs + [R], implies(z3.And(cond, rng(R, 0, w.n.e)), z3.And([a == b for a, b in zip(terms, src)])), terms))
    return out


def create_contract(v, a, C):
    """create_fold, proved as `create`"""
    s = DS(a)

    def h(c):
        ex, st = c.ex, c.st
        ix = ex.node_at(st, c.args[0])
        n = s.features.n.e
        e = sel(ix.el, J).e
        ex.oblige(st, "create_fold: valid indices", forall(J, implies(rng(J, 0, ix.n.e), rng(e, 0, n)), e), "pre")
        ex.oblige(st, "create_fold: distinct indices", distinct(ix), "pre")
        for q in (0, 24, 88):
            x = ex.node_at(st, c.args[1].add(q))
            ex.oblige(st, "create_fold: the given dataset", node_eq(x, a.d[q]), "pre")
        out = ex.fresh(st, cxx.parse_type("albatross::RegressionFold<int>"), "fold")
        for f in C.facts(ix) + fold_rows(out, ix, C.of(ix), s, z3.BoolVal(True), []):
            st.assume(f)
        return c.ret(out)
    return h


def valid_groups(v, g, n):
    l = sel(g.val, KK)
    e = lambda r: sel(l.el, r).e
    v.requires(forall([KK, R], implies(z3.And(has(g, KK), rng(R, 0, l.n.e)), rng(e(R), 0, n)), e(R)))
    v.requires(forall([KK, R, Q], implies(z3.And(has(g, KK), rng(R, 0, l.n.e), rng(Q, 0, l.n.e), R != Q), e(R) != e(Q)), z3.MultiPattern(e(R), e(Q))))
    v.requires(forall(KK, implies(has(g, KK), z3.And(l.n.e >= 0, l.n.e < CAP)), [has(g, KK), l.n.e]))
    v.requires(saturation(g))


@spec("C09", MOD, "folds", contracts={"albatross::create_fold": lambda c: c.ex.create_h(c)})
def folds(v):
    a, g = v.pre
    valid_ds(v, a)
    s = DS(a)
    n = s.features.n.e
    valid_groups(v, g, n)
    C = Complement(n)
    v.ex.create_h = create_contract(v, a, C)
    G = g.dom.e
    ix = sel(g.val, KK)

    def ok(d, done):
        o = sel(d.val, KK)
        return [("keys", forall(KK, has(d, KK) == done(KK), has(d, KK)))] + [("row %d" % i, f) for i, f in
                enumerate(fold_rows(o, ix, C.of(ix), s, done(KK), [KK]))] + [("complement %d" % i, f) for i, f in enumerate(comp_all(done))]

    def comp_all(done):
        r = C.of(ix)
        x = sel(r.el, R).e
        y = sel(r.el, Q).e
        e = ind(ix, Q)
        return [forall(KK, implies(done(KK), r.n.e == n - ix.n.e), r.n.e),
                forall([KK, R], implies(z3.And(done(KK), rng(R, 0, r.n.e)), rng(x, 0, n)), x),
                forall([KK, R, Q], implies(z3.And(done(KK), rng(R, 0, r.n.e), rng(Q, 0, r.n.e), R < Q), x < y), z3.MultiPattern(x, y)),
                forall([KK, R, Q], implies(z3.And(done(KK), rng(R, 0, r.n.e), rng(Q, 0, ix.n.e)), e != x), z3.MultiPattern(x, e))]

    def t(ctx):
        out = []
        for dn, dg in ctx.of(Dict):
            if not isinstance(dg(ctx.entry).val, Struct):
                continue
            for nm, it in ctx.of(Iter):
                k = len(ok(dg(ctx.entry), lambda k: z3.BoolVal(True)))
                for i in range(k):
                    out.append(("visited %s %s %d" % (dn, nm, i), lambda st, dg=dg, it=it, i=i: ok(dg(st), lambda k: z3.And(z3.Select(G, k), idx(G, k) < it(st).pos))[i][1]))
        return out
    v.template(t)
    for p in v.run():
        d = p.ret
        for nm, f in ok(d, lambda k: z3.Select(G, k)):
            p.ensure("one fold per group, its test rows the group, its training rows the complement: " + nm, f)


@spec("C09", MOD, "indexer_of")
def indexer_of(v):
    a = v.pre[0]
    v.requires(saturation(a))
    A = a.dom.e

    def same(d, done):
        x, y = sel(d.val, KK), parts(sel(a.val, KK))[2]
        return z3.And(forall(KK, has(d, KK) == done(KK), has(d, KK)), forall(KK, implies(done(KK), x.n.e == y.n.e), [x.n.e, has(d, KK)]),
                      forall([KK, R], implies(z3.And(done(KK), rng(R, 0, y.n.e)), ind(x, R) == ind(y, R)), ind(x, R)))

    def t(ctx):
        return [("copied %s %s" % (dn, n), lambda st, dg=dg, g=g: same(dg(st), lambda k: z3.And(z3.Select(A, k), idx(A, k) < g(st).pos)))
                for dn, dg in ctx.of(Dict) if isinstance(dg(ctx.entry).val, Vec) for n, g in ctx.of(Iter)]
    v.template(t)
    for p in v.run():
        p.ensure("the test indices of every fold under its key", same(p.ret, lambda k: z3.Select(A, k)))


class Cover:
    """g lists every index below n exactly once: index i is entry rank(i) of group grp(i)"""

    def __init__(self, v, g, n):
        self.grp = z3.Function(fresh_name("grp"), INT, INT)
        self.rank = z3.Function(fresh_name("rnk"), INT, INT)
        self.g, self.n = g, n
        valid_groups(v, g, n)
        v.requires(n >= 1)
        v.requires(n < CAP)
        v.requires(self.fact())
        G = g.dom.e
        self.len = lambda i: sel(g.val, nth(G, i)).n.e
        self.pos = lambda i: idx(G, self.grp(i))
        self.off = prefix_sum(v, "off", self.len)

    def fact(self):
        g = self.g
        l = sel(g.val, self.grp(J))
        e = sel(sel(g.val, KK).el, R).e
        return z3.And(forall(J, implies(rng(J, 0, self.n), z3.And(has(g, self.grp(J)), rng(self.rank(J), 0, l.n.e), ind(l, self.rank(J)) == J)), [self.grp(J), self.rank(J)]),
                      forall([KK, R], implies(z3.And(has(g, KK), rng(R, 0, sel(g.val, KK).n.e)), z3.And(rng(e, 0, self.n), self.grp(e) == KK, self.rank(e) == R)), e))


@spec("C09", MOD, "unique_ix")
def unique_ix(v):
    g = v.pre[0]
    n = z3.Int(fresh_name("n"))
    C = Cover(v, g, n)

    def t(ctx):
        return [("collected %s %s" % (dn, nm), lambda st, dg=dg, it=it: forall(K, z3.Select(dg(st).dom.e, K) == z3.And(rng(K, 0, n), C.pos(K) < it(st).pos), z3.Select(dg(st).dom.e, K)))
                for dn, dg in ctx.of(Dict) for nm, it in ctx.of(Iter)] + [
                ("size %s %s" % (dn, nm), lambda st, dg=dg, it=it: size(dg(st).dom.e) == C.off(it(st).pos)) for dn, dg in ctx.of(Dict) for nm, it in ctx.of(Iter)]
    v.template(t)
    for p in v.run():
        p.ensure("all the indices", forall(K, z3.Select(p.ret.dom.e, K) == rng(K, 0, n), z3.Select(p.ret.dom.e, K)))
        p.ensure("as many as the groups list", size(p.ret.dom.e) == C.off(size(g.dom.e)))


def unique_contract(c):
    """unique_indices, proved as unique_ix"""
    ex, st = c.ex, c.st
    C = ex.cover
    ex.oblige(st, "unique_indices: the given groups", node_eq(ex.node_at(st, c.args[0]), C.g), "pre")
    out = ex.fresh(st, cxx.parse_type("std::set<unsigned long, std::less<unsigned long>, std::allocator<unsigned long>>"), "uniq")
    st.assume(forall(K, z3.Select(out.dom.e, K) == rng(K, 0, C.n), z3.Select(out.dom.e, K)))
    st.assume(size(out.dom.e) == C.off(size(C.g.dom.e)))
    st.assume(z3.And(z3.Select(out.dom.e, z3.IntVal(0)), z3.Select(out.dom.e, C.n - 1)))
    st.assume(saturation(out))
    return c.ret(out)


@spec("C09", MOD, "dataset_size", contracts={"albatross::unique_indices": unique_contract})
def dataset_size(v):
    g = v.pre[0]
    n = z3.Int(fresh_name("n"))
    C = v.ex.cover = Cover(v, g, n)
    v.template(lambda ctx: [("count %s %s" % (pn, nm), lambda st, pg=pg, it=it: pg(st) == C.off(it(st).pos)) for pn, pg in ctx.ints() for nm, it in ctx.of(Iter)])
    for p in v.run():
        p.ensure("the number of indices", p.ret == n)
        p.ensure("equals the total of the group sizes", C.off(size(g.dom.e)) == n)


def size_contract(c):
    """dataset_size_from_indexer, proved as dataset_size"""
    ex, st = c.ex, c.st
    C = ex.cover
    ex.oblige(st, "dataset_size: the given groups", node_eq(ex.node_at(st, c.args[0]), C.g), "pre")
    st.assume(C.off(size(C.g.dom.e)) == C.n)
    return c.ret(C.n)


def set_contract(c):
    """set_subset on vectors, proved as C07 set_vec"""
    ex, st = c.ex, c.st
    if len(c.args) != 3:
        return NotImplemented
    src, ix = ex.mat_arg(c, 0) if hasattr(ex, "mat_arg") else ex.node_at(st, c.args[0]).e, ex.node_at(st, c.args[1])
    dst = ex.node_at(st, c.args[2])
    if not (isinstance(dst, Leaf) and dst.kind == "mat"):
        return NotImplemented
    n = smt.rows(dst.e)
    e = ind(ix, J)
    ex.oblige(st, "set_subset: sizes", z3.And(smt.rows(src) == ix.n.e, smt.cols(src) == 1, smt.cols(dst.e) == 1), "pre")
    ex.oblige(st, "set_subset: valid indices", forall(J, implies(rng(J, 0, ix.n.e), rng(e, 0, n)), e), "pre")
    ex.oblige(st, "set_subset: distinct indices", distinct(ix), "pre")
    out = freshen(dst, "set")
    st.assume(z3.And(smt.rows(out.e) == n, smt.cols(out.e) == 1))
    w = z3.Function(fresh_name("w"), INT, INT)
    o = at(out.e, I_)
    st.assume(forall(J, implies(rng(J, 0, ix.n.e), at(out.e, e) == at(src, J)), e))
    st.assume(forall(I_, implies(rng(I_, 0, n), z3.Or(z3.And(rng(w(I_), 0, ix.n.e), ind(ix, w(I_)) == I_), o == at(dst.e, I_))), o))
    ex.write(st, c.args[2], out)
    return c.ret(None)


CC = {"albatross::dataset_size_from_indexer": size_contract, "albatross::set_subset": set_contract}


def concat(fn, fields, joint=False):
    @spec("C09", MOD, fn, contracts=CC)
    def f(v):
        g, m = v.pre
        n = z3.Int(fresh_name("n"))
        C = v.ex.cover = Cover(v, g, n)
        fs = fields(sel(m.val, KK))
        v.requires(forall(KK, has(m, KK) == has(g, KK), has(m, KK)))
        v.requires(size(m.dom.e) == size(g.dom.e))
        v.requires(forall(KK, implies(has(g, KK), z3.And(*[z3.And(smt.rows(x) == sel(g.val, KK).n.e, smt.cols(x) == (smt.rows(x) if joint and i else 1)) for i, x in enumerate(fs)])),
                          [has(g, KK)] + list(fs)))

        def want(k):
            x = fields(sel(m.val, C.grp(I_)))[k]
            return smt.at(x, C.rank(I_), C.rank(I_)) if joint and k else at(x, C.rank(I_))

        def t(ctx):
            out = []
            for nm, it in ctx.of(Iter):
                for pn, pg in ctx.ints():
                    out.append(("filled %s %s" % (pn, nm), lambda st, pg=pg, it=it: pg(st) == C.off(it(st).pos)))
                for mn, mg in ctx.mats():
                    for k in range(len(fs)):
                        out.append(("placed %s %s %d" % (mn, nm, k), lambda st, mg=mg, it=it, k=k:
                                    forall(I_, implies(z3.And(rng(I_, 0, n), C.pos(I_) < it(st).pos), at(mg(st).e, I_) == want(k)), at(mg(st).e, I_))))
            return out
        v.template(t)
        for p in v.run():
            outs = [p.ret] if z3.is_expr(p.ret) else [mean(p.ret), cov(p.ret)]
            for k, o in enumerate(outs):
                p.ensure("prediction of index i is entry rank(i) of its own group (%s)" % ("mean", "variance")[k],
                         z3.And(smt.rows(o) == n, forall(I_, implies(rng(I_, 0, n), at(o, I_) == want(k)), at(o, I_))))
    return f


concat("means", lambda x: [x.e])
concat("marginals", lambda x: [mean(x), cov(x)])
concat("joints", lambda x: [mean(x), cov(x)], joint=True)
