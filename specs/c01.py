"""C01: fitting and predicting with a Gaussian process is exact Gaussian conditioning."""
from speclib import *
from c10 import mat_is, vec_eq, at, I_, J_, mean, cov, valid_marginal, valid_joint
from ring import SYM, Ring, instances, ldlt_facts, meq
from ring import align as ring_align
import cxx
from subsets import SUBSET
from smt import mmul, mtr, minv, madd, msub
import contracts_eigen as CE

MOD = "gp"
k_ = smt.uf("vpx::k", INT, INT, REAL)
n_ = smt.uf("vpx::n", INT, INT, REAL)
km_ = lambda a, b: k_(a, b) + n_(a, b)
m_ = smt.uf("vpx::m", INT, REAL)
mm_ = smt.uf("vpx::mm", INT, REAL)


def leafm(e):
    return Leaf("mat", e)


def val(n):
    while isinstance(n, Struct):
        n = n.d[0]
    return n.e


el = lambda a, j: val(sel(a.el, j))


def kinds(c):
    """is each vector argument a vector of measurements"""
    return ["Measurement" in p for p in c.params if "vector" in p]


def fresh_matrix(c, n, w, e, tag):
    M = z3.Const(fresh_name(tag), MAT)
    c.st.assume(mat_is(M, n, w, e))
    return M


def covariance(c):
    """contract proved in C04 (and C05 for the measurement dispatch): entry (i,j) is the value of the function"""
    ks = kinds(c)
    if not ks:
        return NotImplemented
    f = km_ if all(ks) else k_
    xs = [c.ex.node_at(c.st, a) for a in c.args[1:1 + len(ks)]]
    a, b = xs[0], xs[-1]
    return c.ret(leafm(fresh_matrix(c, a.n.e, b.n.e, lambda i, j: f(el(a, i), el(b, j)), "cov")))


def mean_call(c):
    ks = kinds(c)
    if not ks:
        return NotImplemented
    f = mm_ if ks[0] else m_
    a = c.ex.node_at(c.st, c.args[1])
    return c.ret(leafm(fresh_matrix(c, a.n.e, z3.IntVal(1), lambda i, j: f(el(a, i)), "mean")))


CALLS = {"albatross::CovarianceFunction::operator()": covariance, "albatross::MeanFunction::operator()": mean_call}


def symmetric(v):
    a, b = z3.Ints("sa sb")
    for f in (k_, n_):
        v.requires(forall([a, b], f(a, b) == f(b, a), f(a, b)))


def call(fn, want):
    @spec("C01", MOD, fn)
    def s(v):
        for p in v.run():
            p.ensure("value", p.ret == want(*[val(a) for a in v.pre[1:]]))


for fn, want in (("call_plain", k_), ("call_measured", km_), ("call_left", k_), ("call_right", k_), ("call_mean", m_), ("call_measured_mean", mm_)):
    call(fn, want)


@spec("C01", MOD, "mean_prediction")
def mean_prediction(v):
    K, w = v.a(0), v.a(1)
    v.requires(smt.rows(K) == smt.rows(w))
    for p in v.run():
        p.algebra("K' information", Ring(), meq(p.ret, mmul(mtr(K), w)))


def quad(K, F):
    """K' F^-1 K"""
    return mmul(mtr(K), mmul(minv(F), K))


def solver(v, i):
    F = v.a(i)
    for x in ldlt_facts(F):
        v.requires(x)
    R = Ring()
    R.symmetric(F)
    return F, R


@spec("C01", MOD, "marginal_prediction")
def marginal_prediction(v):
    K, s, w = v.a(0), v.a(1), v.a(2)
    F, R = solver(v, 3)
    v.requires(z3.And(smt.rows(K) == smt.rows(w), smt.rows(K) == smt.rows(F), smt.rows(s) == smt.cols(K)))
    n = smt.cols(K)
    for p in v.run():
        p.algebra("mean", R, vec_eq(mean(p.ret), n, lambda i: at(mmul(mtr(K), w), i)))
        p.algebra("variance", R, vec_eq(cov(p.ret), n, lambda i: at(s, i) - at(quad(K, F), i, i)))


@spec("C01", MOD, "joint_prediction")
def joint_prediction(v):
    K, S, w = v.a(0), v.a(1), v.a(2)
    F, R = solver(v, 3)
    n = smt.cols(K)
    v.requires(z3.And(smt.rows(K) == smt.rows(w), smt.rows(K) == smt.rows(F), smt.rows(S) == n, smt.cols(S) == n))
    for p in v.run():
        p.algebra("mean", R, vec_eq(mean(p.ret), n, lambda i: at(mmul(mtr(K), w), i)))
        p.algebra("covariance", R, mat_is(cov(p.ret), n, n, lambda i, j: at(S, i, j) - at(quad(K, F), i, j)))


@spec("C01", MOD, "make_fit")
def make_fit(v):
    x, C, y = v.pre[0], v.a(1), v.pre[2]
    n = x.n.e
    v.requires(z3.And(smt.rows(C) == n, smt.cols(C) == n, smt.rows(mean(y)) == n, valid_marginal(y)))
    v.requires(forall([I_, J_], implies(z3.And(rng(I_, 0, n), rng(J_, 0, n)), at(C, I_, J_) == at(C, J_, I_)), at(C, I_, J_)))
    N = madd(C, smt.mdiagm(cov(y)))
    for p in v.run():
        fitted(p, p.ret, x, N, mean(y))


def fitted(p, r, x, N, y, **mats):
    """training features, factorisation of the noisy covariance, and the solution of its system"""
    f, F, w = fields(r)
    p.ensure("training features are kept", z3.And(f.n.e == x.n.e, forall(J, implies(rng(J, 0, x.n.e), el(f, J) == el(x, J)), el(f, J))))
    R = Ring()
    ring_align(p, R, dict(mats, noisy_covariance=N), [F, w])
    p.ensure("factorisation is that of the noisy covariance", meq(F, N))
    p.algebra("information solves the noisy system", R, meq(w, mmul(minv(N), y)))


def fields(r):
    d = [r.d[k] for k in sorted(r.d)]
    return d[0], d[1].e, d[2].e


def mat_const(v, name, n, w, e):
    M = z3.Const("spec_" + name, MAT)
    v.requires(mat_is(M, n, w, e))
    return M


def training(v, x, y, f=km_, g=mm_):
    """noisy covariance and zero mean targets"""
    n = x.n.e
    symmetric(v)
    v.requires(z3.And(smt.rows(mean(y)) == n, valid_marginal(y)))
    N = mat_const(v, "N", n, n, lambda i, j: f(el(x, i), el(x, j)) + z3.If(i == j, at(cov(y), i), z3.RealVal(0)))
    M = mat_const(v, "M", n, z3.IntVal(1), lambda i, j: g(el(x, i)))
    return N, M


def converted(x):
    """candidate invariants: the elements so far are those of x"""
    def t(ctx):
        out = []
        for vn, vg in ctx.of(Vec):
            if len(list(leaves(vg(ctx.entry).el))) == 1 and next(leaves(vg(ctx.entry).el)).kind == "i32":
                out.append((vn + " holds the features so far", lambda s, vg=vg: forall(J, implies(rng(J, 0, vg(s).n.e), el(vg(s), J) == el(x, J)), el(vg(s), J))))
        return out
    return t


def filled(n, e):
    """candidate invariants: entries so far are e"""
    def t(ctx):
        out = []
        for mn, mg in ctx.mats():
            out.append(("size of " + mn, lambda s, mg=mg: z3.And(smt.rows(mg(s).e) == n, smt.cols(mg(s).e) == 1)))
            x = lambda s, mg=mg: at(mg(s).e, I_)
            for q, g in ctx.ints():
                out.append(("%s filled below %s" % (mn, q), lambda s, x=x, g=g: forall(I_, implies(rng(I_, 0, g(s)), x(s) == e(I_)), x(s))))
        return out
    return t


@spec("C01", MOD, "fit_impl", contracts=CALLS)
def fit_impl(v):
    x, y = v.pre[1], v.pre[2]
    v.template(converted(x))
    N, M = training(v, x, y)
    for p in v.run():
        fitted(p, p.ret, x, N, msub(mean(y), M), training_mean=M)


def predict(fn, f, g, what):
    @spec("C01", MOD, fn, contracts=CALLS)
    def s(v):
        x = v.pre[1]
        t, F, w = fields(v.pre[2])
        for a in ldlt_facts(F):
            v.requires(a)
        v.requires(z3.And(smt.rows(F) == t.n.e, smt.rows(w) == t.n.e))
        R = Ring()
        R.symmetric(F)
        K, m, S = against(v, t, x, f, g)
        v.template(filled(x.n.e, lambda i: f(el(x, i), el(x, i))))
        for p in v.run():
            posterior(p, R, p.ret, x.n.e, {"the cross covariance": K, "the mean": m, "the prior covariance": S},
                      madd(m, mmul(mtr(K), w)), msub(S, quad(K, F)), what)


def against(v, t, x, f, g):
    """cross covariance with the training features, prior mean and covariance of the predicted features"""
    n = x.n.e
    symmetric(v)
    return (mat_const(v, "K", t.n.e, n, lambda i, j: k_(el(t, i), el(x, j))), mat_const(v, "m", n, z3.IntVal(1), lambda i, j: g(el(x, i))),
            mat_const(v, "S", n, n, lambda i, j: f(el(x, i), el(x, j))))


def posterior(p, R, r, n, mats, mu, C, what):
    out = [r] if what == "mean" else [mean(r), cov(r)]
    ring_align(p, R, mats, out + p.st.facts)
    p.algebra("mean", R, vec_eq(out[0], n, lambda i: at(mu, i)))
    if what == "marginal":
        p.algebra("variance", R, vec_eq(out[1], n, lambda i: at(C, i, i)))
    if what == "joint":
        p.algebra("covariance", R, mat_is(out[1], n, n, lambda i, j: at(C, i, j)))


for nm, f, g in (("predict_", k_, m_), ("measured_", km_, mm_)):
    for what in ("mean", "marginal", "joint"):
        predict(nm + what, f, g, what)


@spec("C01", MOD, "prior_joint", contracts=CALLS)
def prior_joint(v):
    x = v.pre[1]
    v.template(converted(x))
    for p in v.run():
        p.ensure("mean", vec_eq(mean(p.ret), x.n.e, lambda i: mm_(el(x, i))))
        p.ensure("covariance", mat_is(cov(p.ret), x.n.e, x.n.e, lambda i, j: km_(el(x, i), el(x, j))))


class Targets:
    def __init__(self, n, o):
        self.d = {0: n.d[o], 64: n.d[o + 64]}


def dataset(n):
    return n.d[0], Targets(n, 24)


def conditioning(fn, what, args, f=k_, g=m_):
    @spec("C01", MOD, fn, contracts=CALLS)
    def s(v):
        x, y, t = args(v)
        v.template(converted(x))
        v.template(converted(t))
        N, M = training(v, x, y)
        K, m, S = against(v, x, t, f, g)
        v.template(filled(t.n.e, lambda i: f(el(t, i), el(t, i))))
        for p in v.run():
            R = Ring()
            R.symmetric(N)
            posterior(p, R, p.ret, t.n.e, {"the noisy covariance": N, "the training mean": M, "the cross covariance": K, "the mean": m, "the prior covariance": S},
                      madd(m, mmul(mtr(K), mmul(minv(N), msub(mean(y), M)))), msub(S, quad(K, N)), what)


for what in ("mean", "marginal", "joint"):
    conditioning("posterior_" + what, what, lambda v: v.pre[1:4])
    conditioning("noisy_" + what, what, lambda v: dataset(v.pre[1]) + (v.pre[2],), f=km_, g=mm_)


def recovered(what):
    @spec("C01", MOD, "recovered_" + what, contracts=CALLS)
    def s(v):
        """fitting to a predicted distribution and predicting the same features gives that distribution back"""
        x, P = v.pre[1], v.pre[2]
        n = x.n.e
        v.requires(z3.And(valid_joint(P), smt.rows(mean(P)) == n))
        K, m, S = against(v, x, x, k_, m_)
        v.template(filled(n, lambda i: k_(el(x, i), el(x, i))))
        for p in v.run():
            R = Ring()
            R.symmetric(K)
            posterior(p, R, p.ret, n, {"the prior covariance": K, "the mean": m}, mean(P), cov(P), what)


for what in ("mean", "marginal", "joint"):
    recovered(what)


def indices(v, i, n):
    ix = v.pre[i]
    e = sel(ix.el, J).e
    v.requires(forall(J, implies(rng(J, 0, ix.n.e), rng(e, 0, n)), e))
    return ix, lambda k: sel(ix.el, k).e


def conditional(what):
    @spec("C01", MOD, "conditional_" + what, contracts=SUBSET)
    def s(v):
        """conditioning a joint distribution on noisy values of some of its entries"""
        prior, truth = Targets(v.pre[0], 120), Targets(v.pre[0], 208)
        n = smt.rows(mean(prior))
        v.requires(z3.And(valid_joint(prior), valid_marginal(truth), smt.rows(mean(truth)) == n))
        C = cov(prior)
        v.requires(forall([I_, J_], implies(z3.And(rng(I_, 0, n), rng(J_, 0, n)), at(C, I_, J_) == at(C, J_, I_)), at(C, I_, J_)))
        g, gi = indices(v, 1, n)
        w, wi = indices(v, 2, n)
        N = mat_const(v, "N", g.n.e, g.n.e, lambda i, j: at(C, gi(i), gi(j)) + z3.If(i == j, at(cov(truth), gi(i)), z3.RealVal(0)))
        y, M, m = (mat_const(v, nm, x.n.e, z3.IntVal(1), lambda i, j, d=d, xi=xi: at(mean(d), xi(i))) for nm, x, xi, d in
                   (("y", g, gi, truth), ("M", g, gi, prior), ("m", w, wi, prior)))
        K = mat_const(v, "K", g.n.e, w.n.e, lambda i, j: at(C, gi(i), wi(j)))
        S = mat_const(v, "S", w.n.e, w.n.e, lambda i, j: at(C, wi(i), wi(j)))
        for p in v.run():
            R = Ring()
            R.symmetric(N)
            posterior(p, R, p.ret, w.n.e, {"the noisy covariance": N, "the given values": y, "their mean": M, "the mean": m, "the cross covariance": K,
                                           "the prior covariance": S}, madd(m, mmul(mtr(K), mmul(minv(N), msub(y, M)))), msub(S, quad(K, N)), what)


for what in ("mean", "marginal", "joint"):
    conditional(what)
