"""C07: subsetting, alignment, concatenation keep feature i with its own mean and (co)variance, in the requested order."""
import re
import cxx
from speclib import *
from c10 import mat_is, vec_eq, at, mean, cov, valid_marginal, valid_joint, sized, I_, J_

MOD = "distributions"
CAP = z3.IntVal(2 ** 31 - 1)


def mats_upto(entryfn, dims=None):
    """invariants: the entries of a modified matrix below a counter are the specified ones"""
    def t(ctx):
        out = []
        for n, g in ctx.mats():
            outer = [(pn, pg) for pn, pg in ctx.bounds() if re.match(r"a\d+\.0$", pn)]     # counters of enclosing loops
            for pn, pg in ctx.ints() + outer:
                def rowwise(s, g=g, pg=pg):
                    m = g(s).e
                    e = smt.at(m, I_, J_)
                    return forall([I_, J_], implies(z3.And(rng(I_, 0, pg(s)), rng(J_, 0, smt.cols(m))), e == entryfn(I_, J_)), e)

                def colwise(s, g=g, pg=pg):
                    m = g(s).e
                    e = smt.at(m, I_, J_)
                    return forall([I_, J_], implies(z3.And(rng(J_, 0, pg(s)), rng(I_, 0, smt.rows(m))), e == entryfn(I_, J_)), e)
                out.append(("rows of %s below %s" % (n, pn), rowwise))
                out.append(("cols of %s below %s" % (n, pn), colwise))
            for pn, pg in outer:
                for qn, qg in ctx.ints():

                    def part(s, g=g, pg=pg, qg=qg):
                        m = g(s).e
                        e = smt.at(m, I_, J_)
                        return forall([I_, J_], implies(z3.And(I_ == pg(s), rng(J_, 0, qg(s))), e == entryfn(I_, J_)), e)
                    out.append(("row %s of %s below %s" % (pn, n, qn), part))
        return out
    return t


def valid_indices(v, ix, n):
    e = sel(ix.el, J).e
    v.requires(forall(J, implies(rng(J, 0, ix.n.e), rng(e, 0, n)), e))
    v.requires(ix.n.e < CAP)


def ind(ix, i):
    return sel(ix.el, i).e


@spec("C07", MOD, "sub_vec")
def sub_vec(v):
    a, ix = v.a(0), v.pre[1]
    valid_indices(v, ix, smt.rows(a))
    f = lambda i, j: at(a, ind(ix, i))
    v.template(mats_upto(f))
    for p in v.run():
        p.ensure("selected entries in order", mat_is(p.ret.e if hasattr(p.ret, "e") else p.ret, ix.n.e, z3.IntVal(1), f))


def sub_matrix(fn, rowsel, colsel, iarg):
    @spec("C07", MOD, fn)
    def f(v):
        a = v.a(0)
        r, c = smt.rows(a), smt.cols(a)
        ri = v.pre[iarg[0]] if rowsel else None
        ci = v.pre[iarg[1]] if colsel else None
        if fn == "sub_sym":
            v.requires(r == c)
        if rowsel:
            valid_indices(v, ri, r)
        if colsel:
            valid_indices(v, ci, c)
        want = lambda i, j: smt.at(a, ind(ri, i) if rowsel else i, ind(ci, j) if colsel else j)
        v.template(mats_upto(want))
        for p in v.run():
            p.ensure("selected rows and columns in order", mat_is(matof(p.ret), ri.n.e if rowsel else r, ci.n.e if colsel else c, want))
    return f


def matof(x):
    return x.e if isinstance(x, Leaf) else x


sub_matrix("sub_cols", False, True, (1, 1))
sub_matrix("sub_rows", True, False, (1, 1))
sub_matrix("sub_mat", True, True, (1, 2))
sub_matrix("sub_sym", True, True, (1, 1))


@spec("C07", MOD, "sub_diag")
def sub_diag(v):
    a, ix = v.a(0), v.pre[1]
    valid_indices(v, ix, smt.rows(a))
    f = lambda i, j: at(a, ind(ix, i))
    v.template(mats_upto(f))
    for p in v.run():
        p.ensure("selected variances in order", mat_is(matof(p.ret), ix.n.e, z3.IntVal(1), f))


@spec("C07", MOD, "sub_list")
def sub_list(v):
    a, ix = v.pre
    valid_indices(v, ix, a.n.e)
    f = lambda j: sel(a.el, ind(ix, j))
    v.template(vec_prefix(f))
    for p in v.run():
        p.ensure("selected elements in order", vec_is(p.ret, ix.n.e, f))


# ---- writing a subset: the last write to a position wins; untouched positions keep their value
def last_write(v, ix):
    """ghost: index of the last k < m with indices[k] == p, or -1"""
    lw = z3.Function(fresh_name("lastw"), INT, INT, INT)       # lw(p, m)
    m, q = z3.Ints("lm lp")
    e = ind(ix, m)
    v.requires(forall(q, lw(q, z3.IntVal(0)) == -1, lw(q, z3.IntVal(0))))
    g = z3.Function(fresh_name("lastw_"), INT, INT, INT)
    v.requires(forall([q, m], z3.And(lw(q, m) == g(q, m), implies(m >= 1, lw(q, m) == z3.If(ind(ix, m - 1) == q, m - 1, g(q, m - 1)))), lw(q, m)))
    return lw


def set_spec(fn, mk):
    @spec("C07", MOD, fn)
    def f(v):
        src, ix, dst = v.pre
        pairs = mk(src, dst)
        n = smt.rows(pairs[0][1])
        valid_indices(v, ix, n)
        for s, d in pairs:
            v.requires(smt.rows(s) == ix.n.e)
            v.requires(smt.rows(d) == n)
            v.requires(smt.cols(s) == 1)
            v.requires(smt.cols(d) == 1)
        lw = last_write(v, ix)
        val = lambda s, d, m: (lambda i, j: z3.If(lw(i, m) < 0, at(d, i), at(s, lw(i, m))))
        for s, d in pairs:
            def t(ctx, s=s, d=d):
                out = []
                for n_, g in ctx.mats():
                    for pn, pg in ctx.ints():
                        def inv(st, g=g, pg=pg):
                            m = g(st).e
                            e = at(m, I_)
                            return forall(I_, implies(rng(I_, 0, smt.rows(m)), e == val(s, d, pg(st))(I_, 0)), e)
                        out.append(("written %s %s" % (n_, pn), inv))
                return out
            v.template(t)
        for p in v.run():
            outs = mk(src, p.out(2))
            for (s, d), (_, o) in zip(pairs, outs):
                p.ensure("selected positions written, others kept", mat_is(o, n, z3.IntVal(1), val(s, d, ix.n.e)))
    return f


set_spec("set_vec", lambda s, d: [(s.e, d.e)])
set_spec("set_diag", lambda s, d: [(s.e, d.e)])
set_spec("set_marginal", lambda s, d: [(mean(s), mean(d)), (cov(s), cov(d))])


def sub_dist(fn, joint):
    @spec("C07", MOD, fn)
    def f(v):
        a, ix = v.pre
        v.requires(valid_joint(a) if joint else valid_marginal(a))
        n = smt.rows(mean(a))
        valid_indices(v, ix, n)
        fm = lambda i, j: at(mean(a), ind(ix, i))
        fc = (lambda i, j: smt.at(cov(a), ind(ix, i), ind(ix, j))) if joint else (lambda i, j: at(cov(a), ind(ix, i)))
        v.template(mats_upto(fm))
        v.template(mats_upto(fc))
        for p in v.run():
            m = ix.n.e
            p.ensure("selected means in order", mat_is(mean(p.ret), m, z3.IntVal(1), fm))
            p.ensure("matching covariance block", mat_is(cov(p.ret), m, m if joint else z3.IntVal(1), fc))
    return f


sub_dist("sub_marginal", False)
sub_dist("sub_joint", True)


# ---- datasets: {0: features, 24: targets.mean, 24+64: targets.covariance}
class DS:
    def __init__(self, n):
        ks = [k for k in sorted(n.d)]
        self.features = n.d[0]
        self.mean = n.d[24].e
        self.var = n.d[24 + 64].e


def valid_ds(v, *ns):
    for n in ns:
        d = DS(n)
        v.requires(smt.rows(d.mean) == d.features.n.e)
        v.requires(smt.cols(d.mean) == 1)
        v.requires(smt.rows(d.var) == d.features.n.e)
        v.requires(smt.cols(d.var) == 1)
        v.requires(d.features.n.e < CAP)


def rows_of(p, d, n, idx, src):
    """row k of dataset d is row idx(k) of src, feature with mean and variance"""
    p.ensure("features in order", vec_is(d.features, n, lambda j: sel(src.features.el, idx(j))))
    p.ensure("targets stay paired", mat_is(d.mean, n, z3.IntVal(1), lambda i, j: at(src.mean, idx(i))))
    p.ensure("variances stay paired", mat_is(d.var, n, z3.IntVal(1), lambda i, j: at(src.var, idx(i))))


@spec("C07", MOD, "sub_dataset")
def sub_dataset(v):
    a, ix = v.pre
    valid_ds(v, a)
    s = DS(a)
    valid_indices(v, ix, s.features.n.e)
    idx = lambda j: ind(ix, j)
    v.template(vec_prefix(lambda j: sel(s.features.el, idx(j))))
    v.template(mats_upto(lambda i, j: at(s.mean, idx(i))))
    v.template(mats_upto(lambda i, j: at(s.var, idx(i))))
    for p in v.run():
        rows_of(p, DS(p.ret), ix.n.e, idx, s)


@spec("C07", MOD, "cat_vec")
def cat_vec(v):
    a, b = v.a(0), v.a(1)
    n = smt.rows(a)
    for p in v.run():
        p.ensure("first then second", vec_eq(matof(p.ret), n + smt.rows(b), lambda i: z3.If(i < n, at(a, i), at(b, i - n))))


@spec("C07", MOD, "cat_m")
def cat_m(v):
    a, b = v.pre
    sized(v, a, b)
    n = smt.rows(mean(a))
    for p in v.run():
        for nm, g in (("means", mean), ("variances", cov)):
            p.ensure(nm + " first then second", vec_eq(g(p.ret), n + smt.rows(mean(b)), lambda i: z3.If(i < n, at(g(a), i), at(g(b), i - n))))


@spec("C07", MOD, "cat_d")
def cat_d(v):
    a, b = v.pre
    valid_ds(v, a, b)
    x, y = DS(a), DS(b)
    n, m = x.features.n.e, y.features.n.e
    v.requires(n + m < CAP)
    v.template(vec_prefix(lambda j: z3.If(j < n, sel(x.features.el, j).e, sel(y.features.el, j - n).e)))

    def t(ctx):
        out = []
        for nm, g in ctx.of(Vec):
            for pn, pg in ctx.ints():
                out.append(("appended %s %s" % (nm, pn), lambda s, g=g, pg=pg: g(s).n.e == n + pg(s)))
        return out
    v.template(t)
    for p in v.run():
        d = DS(p.ret)
        p.ensure("features first then second", vec_is(d.features, n + m, lambda j: z3.If(j < n, sel(x.features.el, j).e, sel(y.features.el, j - n).e)))
        p.ensure("targets first then second", vec_eq(d.mean, n + m, lambda i: z3.If(i < n, at(x.mean, i), at(y.mean, i - n))))
        p.ensure("variances first then second", vec_eq(d.var, n + m, lambda i: z3.If(i < n, at(x.var, i), at(y.var, i - n))))


# ---- contract of subset(dataset, indices), proved above (sub_dataset); used by deduplicate and align_datasets
def subset_contract(c):
    if not (c.params and c.params[0].startswith("albatross::RegressionDataset")) or c.sret is None:
        return NotImplemented
    ex, st = c.ex, c.st
    ty = cxx.parse_type(c.params[0])
    src = ex.fresh(None, ty, "proto")
    src = Struct({k: ex.node_at(st, c.args[0].add(k)) for k in src.d}, ty)
    ix = ex.node_at(st, c.args[1])
    s = DS(src)
    n = s.features.n.e
    e = ind(ix, J)
    ex.oblige(st, "subset: indices in range", forall(J, implies(rng(J, 0, ix.n.e), rng(e, 0, n)), e), "pre")
    ex.oblige(st, "subset: consistent dataset", z3.And(smt.rows(s.mean) == n, smt.rows(s.var) == n, n < CAP, ix.n.e < CAP), "pre")
    out = ex.fresh(st, ty, "sub")
    d = DS(out)
    m = ix.n.e
    st.assume(vec_is(d.features, m, lambda j: sel(s.features.el, ind(ix, j))))
    st.assume(mat_is(d.mean, m, z3.IntVal(1), lambda i, j: at(s.mean, ind(ix, i))))
    st.assume(mat_is(d.var, m, z3.IntVal(1), lambda i, j: at(s.var, ind(ix, i))))
    return c.ret(out)


@spec("C07", MOD, "dedup", contracts={"albatross::subset": subset_contract})
def dedup(v):
    a = v.pre[0]
    valid_ds(v, a)
    s = DS(a)
    n = s.features.n.e
    f = lambda i: sel(s.features.el, i).e
    last = z3.Function(fresh_name("last"), INT, BOOL)       # no later element has the same feature
    w = z3.Function(fresh_name("later"), INT, INT)
    i, j = z3.Ints("di dj")
    v.requires(forall([i, j], implies(z3.And(last(i), i < j, j < n), f(i) != f(j)), z3.MultiPattern(last(i), f(j))))
    v.requires(forall(i, implies(z3.Not(last(i)), z3.And(w(i) > i, w(i) < n, f(w(i)) == f(i))), last(i)))
    c = count(v, "kept", last)

    def t(ctx):
        out = []
        for nm, g in ctx.of(Vec):
            for pn, pg in ctx.ints():
                if pn.endswith(".len"):
                    continue

                def inv(s_, g=g, pg=pg):
                    u = g(s_)
                    return z3.And(u.n.e == c(pg(s_)), forall(J, implies(z3.And(rng(J, 0, pg(s_)), last(J)), z3.And(
                        c(J) >= 0, c(J) < u.n.e, sel(u.el, c(J)).e == J)), last(J)))

                def inv2(s_, g=g, pg=pg):
                    u = g(s_)
                    e = sel(u.el, J).e
                    return forall(J, implies(rng(J, 0, u.n.e), z3.And(rng(e, 0, pg(s_)), last(e), c(e) == J)), e)
                out += [("kept %s %s" % (nm, pn), inv), ("sorted %s %s" % (nm, pn), inv2)]
        for pn, pg in ctx.ints():
            out.append(("no equal later %s" % pn, lambda s_, pg=pg: noeq(ctx, s_, pg)))
        return out

    def noeq(ctx, s_, pg):
        """inner loop: nothing between index+1 and the counter equals the element at index"""
        outs = []
        for nm, g in ctx.bounds():
            if re.match(r"a\d+\.0$", nm):
                k = g(s_)
                outs.append(implies(z3.And(k >= 0, k < pg(s_)), z3.And(forall(J, implies(z3.And(k < J, J < pg(s_)), f(J) != f(k)), f(J)))))
        return z3.And(outs) if outs else None
    v.template(t)
    for p in v.run():
        d = DS(p.ret)
        p.ensure("number kept", d.features.n.e == c(n))
        p.ensure("each last occurrence kept in order, paired", forall(J, implies(z3.And(rng(J, 0, n), last(J)), z3.And(
            rng(c(J), 0, d.features.n.e), sel(d.features.el, c(J)).e == f(J), at(d.mean, c(J)) == at(s.mean, J),
            at(d.var, c(J)) == at(s.var, J))), last(J)))
        k = z3.Int("dk")
        p.ensure("no duplicates remain", forall([J, k], implies(z3.And(rng(J, 0, d.features.n.e), rng(k, 0, d.features.n.e), J != k),
                                                                  sel(d.features.el, J).e != sel(d.features.el, k).e)))


@spec("C07", MOD, "align", contracts={"albatross::subset": subset_contract})
def align(v):
    a, b = v.pre
    valid_ds(v, a, b)
    x, y = DS(a), DS(b)
    n, m = x.features.n.e, y.features.n.e
    eq = lambda i, j: sel(x.features.el, i).e == sel(y.features.el, j).e
    # ghost: position of the pair (i, j) among the matching pairs in lexicographic order
    pos = z3.Function(fresh_name("pos"), INT, INT, INT)
    pog = z3.Function(fresh_name("pos_"), INT, INT, INT)
    i, j = z3.Ints("ai aj")
    v.requires(forall([i, j], z3.And(pos(i, j) == pog(i, j), implies(z3.And(i == 0, j == 0), pos(i, j) == 0),
                                     implies(z3.And(i >= 1, j == 0), pos(i, j) == pog(i - 1, m)),
                                     implies(j >= 1, pos(i, j) == pog(i, j - 1) + z3.If(eq(i, j - 1), z3.IntVal(1), z3.IntVal(0)))),
                      pos(i, j)))
    v.requires(pos(n, z3.IntVal(0)) < CAP)      # number of matching pairs

    def rows_done(u, w, ci, cj):
        """matching pairs before (ci, cj) are recorded at their position"""
        before = z3.Or(rng(i, 0, ci), z3.And(i == ci, j < cj))
        e = lambda z: sel(z.el, pos(i, j)).e
        return z3.And(u.n.e == pos(ci, cj), w.n.e == u.n.e, forall([i, j], implies(z3.And(i >= 0, rng(j, 0, m), before, eq(i, j)), z3.And(
            rng(pos(i, j), 0, u.n.e), e(u) == i, e(w) == j)), z3.MultiPattern(sel(x.features.el, i).e, sel(y.features.el, j).e)))

    def recorded(u, w, ci, cj):
        eu, ew = sel(u.el, J).e, sel(w.el, J).e
        return forall(J, implies(rng(J, 0, u.n.e), z3.And(eu >= 0, rng(ew, 0, m), z3.Or(eu < ci, z3.And(eu == ci, ew < cj)), eu < n,
                                                          eq(eu, ew), pos(eu, ew) == J)), [eu, ew])

    def t(ctx):
        out = []
        vs = ctx.of(Vec)
        ints = [q for q in ctx.ints() if not q[0].endswith(".len")]
        outer = [q for q in ctx.bounds() if re.match(r"a\d+\.0$", q[0])]
        for nu, gu in vs:
            for nw, gw in vs:
                if nu == nw:
                    continue
                for pn, pg in ints:
                    z = lambda s: z3.IntVal(0)
                    out.append(("rows %s %s %s" % (nu, nw, pn), lambda s, gu=gu, gw=gw, pg=pg: rows_done(gu(s), gw(s), pg(s), z3.IntVal(0))))
                    out.append(("recorded %s %s %s" % (nu, nw, pn), lambda s, gu=gu, gw=gw, pg=pg: recorded(gu(s), gw(s), pg(s), z3.IntVal(0))))
                    for qn, qg in outer:
                        out.append(("pairs %s %s %s %s" % (nu, nw, qn, pn), lambda s, gu=gu, gw=gw, pg=pg, qg=qg: rows_done(gu(s), gw(s), qg(s), pg(s))))
                        out.append(("pairs recorded %s %s %s %s" % (nu, nw, qn, pn), lambda s, gu=gu, gw=gw, pg=pg, qg=qg: recorded(gu(s), gw(s), qg(s), pg(s))))
        return out
    v.template(t)
    for p in v.run():
        dx, dy = DS(p.out(0)), DS(p.out(1))
        num = dx.features.n.e
        p.ensure("same size", dy.features.n.e == num)
        p.ensure("aligned features match", forall(J, implies(rng(J, 0, num), sel(dx.features.el, J).e == sel(dy.features.el, J).e)))
        trig = lambda: z3.MultiPattern(sel(x.features.el, i).e, sel(y.features.el, j).e)
        inb = z3.And(rng(i, 0, n), rng(j, 0, m), eq(i, j))
        k = pos(i, j)
        p.ensure("every common feature is kept", forall([i, j], implies(inb, rng(k, 0, num)), trig()))
        p.ensure("first dataset stays paired", forall([i, j], implies(inb, z3.And(sel(dx.features.el, k).e == sel(x.features.el, i).e,
                 at(dx.mean, k) == at(x.mean, i), at(dx.var, k) == at(x.var, i))), trig()))
        p.ensure("second dataset stays paired", forall([i, j], implies(inb, z3.And(sel(dy.features.el, k).e == sel(y.features.el, j).e,
                 at(dy.mean, k) == at(y.mean, j), at(dy.var, k) == at(y.var, j))), trig()))


# ---- concatenation of many
def tiles(outm, src, off, hi):
    """block I of the result is the whole of source I"""
    e = at(src(I_), J_)
    return forall([I_, J_], implies(z3.And(rng(I_, 0, hi), rng(J_, 0, smt.rows(src(I_)))), at(outm, off.limited(I_) + J_) == e), e)


def marginals_of(v, get):
    """fields of the k-th marginal with validity: (mean(k), var(k))"""
    mk = lambda k: get(k)[0]
    vk = lambda k: get(k)[1]
    J0 = z3.Int("vk")
    v.requires(forall(J0, z3.And(smt.rows(mk(J0)) >= 0, smt.cols(mk(J0)) == 1), mk(J0)))
    v.requires(forall(J0, z3.And(smt.rows(vk(J0)) == smt.rows(mk(J0)), smt.cols(vk(J0)) == 1), vk(J0)))
    return mk, vk


@spec("C07", MOD, "cat_ms")
def cat_ms(v):
    a = v.pre[0]
    get = lambda k: (sel(a.el, k).d[0].e, sel(a.el, k).d[64].e)
    mk, vk = marginals_of(v, get)
    off = prefix_sum(v, "off", lambda k: smt.rows(mk(k)))
    v.requires(off(a.n.e) < 2 ** 40)

    def t(ctx):
        out = []
        its = ctx.of(Iter)
        for pn, pg in ctx.ints():
            for n, g in its:
                out.append(("offset %s %s" % (pn, n), lambda s, g=g, pg=pg: z3.And(g(s).pos >= 0, g(s).pos <= a.n.e, pg(s) == off(g(s).pos))))
        for mn, mg in ctx.mats():
            for n, g in its:
                for src, nm in ((mk, "means"), (vk, "variances")):
                    out.append(("tiles %s %s %s" % (mn, n, nm), lambda s, g=g, mg=mg, src=src: tiles(mg(s).e, src, off, g(s).pos)))
        return out
    v.template(t)
    for p in v.run():
        n = off(a.n.e)
        m, w = mean(p.ret), cov(p.ret)
        p.ensure("total size", z3.And(smt.rows(m) == n, smt.rows(w) == n, implies(n > 0, z3.And(smt.cols(m) == 1, smt.cols(w) == 1))))
        p.ensure("means in order", tiles(m, mk, off, a.n.e))
        p.ensure("variances in order", tiles(w, vk, off, a.n.e))


def ident(a, b):
    """same stored value (leaf-wise)"""
    return z3.And([x.e == y.e for x, y in zip(leaves(a), leaves(b))])


def cat_many(v, elem, N):
    """concatenation of the N datasets elem(0), elem(1), ..."""
    ds = lambda k: DS(elem(k))
    get = lambda k: (ds(k).mean, ds(k).var)
    mk, vk = marginals_of(v, get)
    fl = lambda k: ds(k).features
    J0 = z3.Int("vk")
    v.requires(forall(J0, z3.And(fl(J0).n.e == smt.rows(mk(J0)), fl(J0).n.e >= 0), [fl(J0).n.e]))
    off = prefix_sum(v, "off", lambda k: fl(k).n.e)
    v.requires(off(N) < CAP)
    marg = lambda k: Struct({o - 24: x for o, x in elem(k).d.items() if 24 <= o < 24 + 104})

    def copied(u, hi):
        e = sel(u.el, J)
        if isinstance(e, Struct) and 24 + 64 in e.d and isinstance(e.d.get(0), Vec):
            w = elem(J)
        elif isinstance(e, Vec):
            w = fl(J)
        elif isinstance(e, Struct) and 64 in e.d:
            w = marg(J)
            e = Struct({k: e.d[k] for k in w.d if k in e.d})
            w = Struct({k: w.d[k] for k in e.d})
        else:
            return z3.BoolVal(True)
        return z3.And(u.n.e == hi, forall(J, implies(rng(J, 0, hi), ident(e, w)), [l.e for l in leaves(e)]))

    def lists(u, hi):
        e = sel(u.el, J)
        if not isinstance(e, Leaf):
            return z3.BoolVal(True)
        s = sel(fl(I_).el, J_).e
        return z3.And(u.n.e == off(hi), forall([I_, J_], implies(z3.And(rng(I_, 0, hi), rng(J_, 0, fl(I_).n.e)),
                                                                 z3.Select(u.el.e, off.limited(I_) + J_) == s), s))

    def t(ctx):
        out = []
        its = ctx.of(Iter)
        for un, ug in ctx.of(Vec):
            for n, g in its:
                out.append(("copied %s %s" % (un, n), lambda s, g=g, ug=ug: z3.And(g(s).pos >= 0, g(s).pos <= N, copied(ug(s), g(s).pos))))
                out.append(("appended %s %s" % (un, n), lambda s, g=g, ug=ug: z3.And(g(s).pos >= 0, g(s).pos <= N, lists(ug(s), g(s).pos))))
        for pn, pg in ctx.ints():
            for n, g in its:
                out.append(("offset %s %s" % (pn, n), lambda s, g=g, pg=pg: z3.And(g(s).pos >= 0, g(s).pos <= N, pg(s) == off(g(s).pos))))
        for mn, mg in ctx.mats():
            for n, g in its:
                for src, nm in ((mk, "means"), (vk, "variances")):
                    out.append(("tiles %s %s %s" % (mn, n, nm), lambda s, g=g, mg=mg, src=src: tiles(mg(s).e, src, off, g(s).pos)))
        return out
    v.template(t)
    for p in v.run():
        d = DS(p.ret)
        n = off(N)
        p.ensure("total size", z3.And(d.features.n.e == n, smt.rows(d.mean) == n, smt.rows(d.var) == n))
        p.ensure("features in order", lists(d.features, N))
        p.ensure("targets in order", tiles(d.mean, mk, off, N))
        p.ensure("variances in order", tiles(d.var, vk, off, N))


@spec("C07", MOD, "cat_ds")
def cat_ds(v):
    a = v.pre[0]
    cat_many(v, lambda k: sel(a.el, k), a.n.e)
