"""C20: prediction metrics equal their definitions.  Sums are ghost sums over the entries, of any number of them."""
from speclib import *
from c10 import mean, cov, at, I_, J_
from ring import SYM, D_, L_, P_, SD_, Ring, instances, ldlt_facts, meq
from smt import mmul, mtr, minv, mdiagm
from contracts_ldlt import CH_
import contracts_eigen as CE

MOD = "metrics"
Z = z3.IntVal(0)
real = z3.ToReal
TWO_PI = z3.RealVal("6.283185307179586")
PI = z3.RealVal("3.141592653589793")
TWO_OVER_PI = z3.RealVal("0.6366197723675814")      # as a double, like 2 pi and pi
log, sqrt = smt.fn_log, smt.fn_sqrt


def sum_of(v, name, f):
    """ghost sum of f(i) over the rows below n"""
    return fold(v, name, REAL, z3.RealVal(0), lambda i, r: r + f(i))


def running(*sums):
    """candidates: a running total is a ghost sum below the loop position"""
    def f(ctx):
        out = []
        for a, g in ctx.reals():
            for i, h in ctx.ints() + [(n, (lambda s, q=q: q(s).pos)) for n, q in ctx.of(Iter)]:
                for k, S in enumerate(sums):
                    out.append(("%s is total %d below %s" % (a, k, i), lambda s, g=g, h=h, S=S: z3.And(h(s) >= 0, g(s) == S(h(s)))))
        return out
    return f


def reductions(e, fns, seen=None):
    """terms with one of these heads in expressions"""
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if any(x.decl() == f for f in fns):
                out.append(x)
            todo += x.children()
    return out


def unfold(p, S, f, n, exprs):
    """meaning of the reductions in the code: the sum of a column (or of products of the entries of two columns) is S when every
    entry is f(i); the instance for every reduction in the result"""
    for e in exprs:
        for t in reductions(e, (smt.msum, smt.mdot)):
            w = z3.Int(fresh_name("entry"))
            A = t.arg(0)
            q = lambda m: at(m, w, 0)
            x = q(A) if t.decl() == smt.msum else q(A) * q(t.arg(1))
            p.assume(z3.Or(t == S(n), smt.rows(A) != n, smt.cols(A) != 1, z3.And(rng(w, 0, n), x != f(w))))


def square(x):
    return x * x


@spec("C20", MOD, "rmse")
def rmse(v):
    root_mean_square(v, v.a(0), v.a(1))


def root_mean_square(v, a, b):
    n = smt.rows(a)
    v.requires(z3.And(n > 0, smt.rows(b) == n))
    f = lambda i: square(at(a, i) - at(b, i))
    S = sum_of(v, "squares", f)
    v.template(running(S))
    for p in v.run():
        unfold(p, S, f, n, [p.ret])
        p.ensure("root of the mean of the squared errors", p.ret == sqrt(S(n) / real(n)))


@spec("C20", MOD, "rmse_truth")
def rmse_truth(v):
    root_mean_square(v, v.a(0), mean(v.pre[1]))


def deviation(v, n, x):
    v.requires(n >= 0)
    S = sum_of(v, "total", x)
    m = S(n) / real(n)
    g = lambda i: square(x(i) - m)
    Q = sum_of(v, "squares", g)
    h = lambda i: square(x(i) - m) / (real(n) - 1)
    T = sum_of(v, "scaled squares", h)
    # scaling commutes with the sum: by induction, lemma below
    v.requires(implies(n > 1, T(n) == Q(n) / (real(n) - 1)))
    return S, x, m, Q, T


@spec("C20", MOD, None, name="scaled sums")
def scaled_sums(v):
    a, b = z3.Function("sum_a", INT, REAL), z3.Function("sum_b", INT, REAL)
    x = z3.Function("summand", INT, REAL)
    i, c = z3.Int("i"), z3.Real("c")
    v.ensure("no entries", [a(0) == 0, b(0) == 0, c != 0], b(0) == a(0) / c)
    v.ensure("one more entry", [a(i + 1) == a(i) + x(i), b(i + 1) == b(i) + x(i) / c, b(i) == a(i) / c, c != 0], b(i + 1) == a(i + 1) / c)


def difference(v, a, b):
    v.requires(z3.And(smt.rows(b) == smt.rows(a), smt.cols(b) == smt.cols(a)))
    return smt.msub(a, b)


def standard(fn, args):
    @spec("C20", MOD, fn)
    def s(v):
        X = args(v)
        n, x = smt.rows(X), lambda i: at(X, i)
        v.requires(smt.cols(X) == 1)
        S, f, m, Q, T = deviation(v, n, x)
        v.requires(n >= 1)      # not a number for no entries: outside the theory of reals, replayed

        v.template(running(Q, T))
        v.requires(smt.msum(X) == S(n))      # what the sum of the entries of a vector is
        for p in v.run():
            p.ensure("root of the sum of squared deviations from the mean over n - 1", p.ret == z3.If(n == 1, z3.RealVal(0), sqrt(Q(n) / (real(n) - 1))))


standard("sd", lambda v: v.a(0))
standard("sd_error", lambda v: difference(v, v.a(0), v.a(1)))
standard("sd_truth", lambda v: difference(v, v.a(0), mean(v.pre[1])))


def ll(d, v):
    """negative log density of a normal deviation"""
    return d * d / (2 * v) + log(TWO_PI * v) / 2


@spec("C20", MOD, "nll_scalar")
def nll_scalar(v):
    d, s = v.a(0), v.a(1)
    v.requires(s > 0)
    for p in v.run():
        p.ensure("definition", p.ret == ll(d, s))


def log_det(v, F):
    f = lambda i: log(at(D_(F), i))
    return f, sum_of(v, "log_det", f)


def mahalanobis(F, d):
    return mmul(mtr(d), mmul(minv(F), d))


def multivariate(v, d, F, p, S, n):
    """half of the log determinant, the Mahalanobis distance and n log 2 pi"""
    q = mahalanobis(F, d)
    e = smt.mdot(d, mmul(minv(F), d))
    p.assume(e == smt.at(q, Z, Z))        # what the dot product of two vectors is
    return (S(n) + smt.at(q, Z, Z) + real(n) * log(TWO_PI)) / 2


def likelihood(fn, args, one=True):
    @spec("C20", MOD, fn)
    def s(v):
        d, C, F = args(v)
        n = smt.rows(d)
        v.requires(z3.And(n >= 1, smt.cols(d) == 1))
        if one:
            v.requires(smt.at(C, Z, Z) > 0)
        for x in ldlt_facts(F):
            v.requires(x)
        f, S = log_det(v, F)
        v.template(running(S))
        for p in v.run():
            unfold(p, S, f, n, [p.ret] + p.st.facts)
            w = multivariate(v, d, F, p, S, n)
            if one:
                p.ensure("negative log density of the univariate normal", implies(n == 1, p.ret == ll(at(d, Z), smt.at(C, Z, Z))))
            p.ensure("negative log density of the multivariate normal", implies(z3.Or(n != 1, not one), p.ret == w))


def square_matrix(v, d, C):
    v.requires(z3.And(smt.rows(C) == smt.rows(d), smt.cols(C) == smt.rows(d)))
    return C


def dense(v):
    C = square_matrix(v, v.a(0), v.a(1))
    v.requires(forall([I_, J_], implies(z3.And(rng(I_, 0, smt.rows(C)), rng(J_, 0, smt.rows(C))), smt.at(C, I_, J_) == smt.at(C, J_, I_)), smt.at(C, I_, J_)))
    return v.a(0), C, SYM(C)


def factored(v):
    F = square_matrix(v, v.a(0), v.a(1))
    return v.a(0), F, F


likelihood("nll_dense", dense)
likelihood("nll_ldlt", factored, one=False)


@spec("C20", MOD, "nll_diagonal")
def nll_diagonal(v):
    d, c = v.a(0), v.a(1)
    n = smt.rows(d)
    v.requires(smt.rows(c) == n)
    v.requires(forall(I_, implies(rng(I_, 0, n), at(c, I_) > 0), at(c, I_)))
    S = sum_of(v, "independent", lambda i: ll(at(d, i), at(c, i)))
    v.template(running(S))
    for p in v.run():
        p.ensure("sum of the independent terms", p.ret == S(n))


@spec("C20", MOD, "logs")
def logs(v):
    x = v.a(0)
    S = sum_of(v, "logs", lambda i: log(at(x, i)))
    v.template(running(S))
    for p in v.run():
        p.ensure("sum of the logs", p.ret == S(smt.rows(x)))


for fn, get in (("entropy", lambda v: SYM(v.a(0))), ("entropy_ldlt", lambda v: v.a(0))):
    def _(fn=fn, get=get):
        @spec("C20", MOD, fn)
        def s(v):
            """half of the log determinant of 2 pi e times the covariance"""
            F = get(v)
            n = smt.rows(F)
            if fn == "entropy":
                v.requires(z3.And(smt.rows(v.a(0)) == smt.cols(v.a(0)), n == smt.rows(v.a(0))))
            for x in ldlt_facts(F):
                v.requires(x)
            f, S = log_det(v, F)
            v.template(running(S))
            for p in v.run():
                unfold(p, S, f, n, [p.ret] + p.st.facts)
                p.ensure("definition", p.ret == (S(n) + real(n) * (1 + log(TWO_PI))) / 2)
    _()


def combined(v, P, T, joint):
    """deviation and covariance of the prediction and the truth, of whom the code forms the terms below"""
    d = smt.msub(mean(P), mean(T))
    n = smt.rows(mean(P))
    c, t = cov(P), cov(T)
    v.requires(z3.And(n >= 1, smt.cols(mean(P)) == 1, smt.rows(mean(T)) == n, smt.cols(mean(T)) == 1, smt.rows(c) == n, smt.rows(t) == n, smt.cols(t) == 1))
    if joint:
        v.requires(smt.cols(c) == n)
        v.requires(forall([I_, J_], implies(z3.And(rng(I_, 0, n), rng(J_, 0, n)), smt.at(c, I_, J_) == smt.at(c, J_, I_)), smt.at(c, I_, J_)))
        return d, lambda i, j: smt.at(c, i, j) + z3.If(i == j, at(t, i), z3.RealVal(0))
    v.requires(smt.cols(c) == 1)
    return d, lambda i, j: z3.If(i == j, at(c, i) + at(t, i), z3.RealVal(0))


NLL = smt.uf("nll", MAT, MAT, REAL)
CHI = smt.uf("chi2_distance", MAT, MAT, REAL)


def of_moments(fn, name, f, joint):
    """the metric of a prediction is the one of the deviation and the total covariance"""
    def contract(c):
        if not c.params[0].startswith("Eigen::") or "Eigen::" not in c.params[-1]:
            return NotImplemented
        d, C = CE.val(c, 0), CE.val(c, 1)
        got.append((d, C))
        return c.ret(Leaf("f64", f(d, C)))
    got = []

    @spec("C20", MOD, fn, contracts={name: contract})
    def s(v):
        del got[:]
        P, T = v.pre[0], v.pre[1]
        d, C = combined(v, P, T, joint)
        n = smt.rows(mean(P))
        for p in v.run():
            x, X = got[-1]
            p.ensure("the deviation from the truth", meq(x, d))
            p.ensure("covariance of the prediction plus the noise of the truth", z3.And(smt.rows(X) == n, smt.cols(X) == n, forall([I_, J_], implies(
                z3.And(rng(I_, 0, n), rng(J_, 0, n)), smt.at(X, I_, J_) == C(I_, J_)), smt.at(X, I_, J_))))
            p.ensure("metric of these", p.ret == f(x, X))


of_moments("nll_joint", "albatross::negative_log_likelihood", NLL, True)
of_moments("nll_marginal", "albatross::negative_log_likelihood", NLL, False)
of_moments("chi_squared_joint", "albatross::chi_squared_cdf", CHI, True)

CDF = smt.uf("chi_squared_cdf", REAL, REAL, REAL)


def chi2_cdf(c):
    """specified in C17"""
    if len(c.args) != 2 or not c.params[0] == "double":
        return NotImplemented
    n = c.args[1]
    n = n.e if isinstance(n, Leaf) else n
    return c.ret(Leaf("f64", CDF(c.args[0].e if isinstance(c.args[0], Leaf) else c.args[0], real(n) if n.sort() == INT else n)))


@spec("C20", MOD, "chi_squared", contracts={"albatross::chi_squared_cdf": chi2_cdf})
def chi_squared(v):
    d, C, F = dense(v)
    n = smt.rows(d)
    v.requires(z3.And(n >= 1, smt.cols(d) == 1))
    R = Ring()
    # F = L L', so that its inverse is inv(L)' inv(L)
    R.define(minv(R.rep(F)), mmul(mtr(minv(CH_(F))), minv(CH_(F))))
    for p in v.run():
        x = p.ret.arg(0)
        t = reductions(p.ret, (smt.mdot,))
        p.ensure("distribution function of the squared Mahalanobis distance", p.ret == CDF(x, real(n)))
        for u in t:
            p.assume(u == smt.at(mmul(mtr(u.arg(0)), u.arg(1)), Z, Z))
            p.algebra("squared Mahalanobis distance", R, implies(x == u, meq(mmul(mtr(u.arg(0)), u.arg(1)), mahalanobis(F, d))))
        p.ensure("a squared distance", z3.Or([x == u for u in t]))


@spec("C20", MOD, "crps")
def crps(v):
    """continuous ranked probability score of a normal distribution (Gneiting et al. 2005, equation 5)"""
    m, s, y = v.a(0), v.a(1), v.a(2)
    z = (y - m) / s
    SQRT2, SQRT_TWO_PI, ISQRT_PI = sqrt(z3.RealVal(2)), sqrt(TWO_PI), 1 / sqrt(PI)
    erf = smt.uf("fn_erf", REAL, REAL)
    for p in v.run():
        p.ensure("point mass", implies(s <= 0, p.ret == z3.If(y - m >= 0, y - m, m - y)))
        p.ensure("definition", implies(s > 0, p.ret == s * (z * erf(z / SQRT2) + 2 * smt.fn_exp(-z * z / 2) / SQRT_TWO_PI - ISQRT_PI)))


def absolute(x):
    return z3.If(x >= 0, x, -x)


def expected_abs(m, s):
    """expected absolute value of a normal variable (of standard deviation 1e-16 at least, in the quotient)"""
    n = absolute(m) / z3.If(s >= z3.RealVal("1e-16"), s, z3.RealVal("1e-16"))
    erf = smt.uf("fn_erf", REAL, REAL)
    return s * sqrt(TWO_OVER_PI) * smt.fn_exp(-n * n / 2) + absolute(m) * erf(n / sqrt(z3.RealVal(2)))


@spec("C20", MOD, "abs_1")
def abs_1(v):
    m, s = v.a(0), v.a(1)
    for p in v.run():
        p.ensure("point mass", implies(s <= 0, p.ret == absolute(m)))
        p.ensure("definition", implies(s > 0, p.ret == expected_abs(m, s)))


@spec("C20", MOD, "abs_2")
def abs_2(v):
    for p in v.run():
        p.ensure("definition", p.ret == v.a(0) * v.a(0) + v.a(1) * v.a(1))



def weighted_norms(v, p, n, k, w, d):
    """mean over the columns of the root of the weighted sum of squares of d(i, j)"""
    Q = smt.uf(fresh_name("squares"), INT, INT, REAL)
    S = sum_of(v, "norms", lambda j: sqrt(Q(j, n)))
    q = lambda i, j: at(w, i) * square(d(i, j))
    p.assume(forall(J_, Q(J_, Z) == 0, Q(J_, Z)))
    p.assume(forall([I_, J_], implies(I_ >= 0, Q(J_, I_ + 1) == Q(J_, I_) + q(I_, J_)), Q(J_, I_ + 1)))
    for e in reductions(p.ret, (smt.mcolsum,)):
        # what the sums of the columns are: Q, unless an entry differs
        W = smt.uf(fresh_name("entry"), INT, INT)
        A, t = e.arg(0), smt.at(e, Z, J_)
        p.assume(implies(smt.rows(A) == n, forall(J_, z3.Or(t == Q(J_, n), z3.And(rng(W(J_), 0, n), smt.at(A, W(J_), J_) != q(W(J_), J_))), t)))
    for e in reductions(p.ret, (smt.msum,)):
        x = z3.Int(fresh_name("column"))
        A = e.arg(0)
        p.assume(z3.Or(e == S(k), smt.cols(A) != k, smt.rows(A) != 1, z3.And(rng(x, 0, k), smt.at(A, Z, x) != sqrt(Q(x, n)))))
    p.ensure("mean of the weighted norms", p.ret == S(k) / real(k))


@spec("C20", MOD, "errors")
def errors(v):
    s, t, w = v.a(0), v.a(1), v.a(2)
    n, k = smt.rows(s), smt.cols(s)
    v.requires(z3.And(smt.cols(t) == 1, smt.rows(t) == n, smt.rows(w) == n, smt.cols(w) == 1, k > 0))
    for p in v.run():
        weighted_norms(v, p, n, k, w, lambda i, j: smt.at(s, i, j) - at(t, i))


@spec("C20", MOD, "pairs")
def pairs(v):
    a, b, w = v.a(0), v.a(1), v.a(2)
    n, k = smt.rows(a), smt.cols(a)
    v.requires(z3.And(smt.rows(b) == n, smt.cols(b) == k, smt.rows(w) == n, smt.cols(w) == 1, k > 0))
    for p in v.run():
        weighted_norms(v, p, n, k, w, lambda i, j: smt.at(a, i, j) - smt.at(b, i, j))


def draws(c):
    """n columns of draws, specified in draw"""
    F, m, n = CE.val(c, 0), CE.val(c, 1), c.args[2]
    n = n.e if isinstance(n, Leaf) else n
    X = z3.Const(fresh_name("draws"), MAT)
    c.ex.oblige(c.st, "as many means as rows", smt.rows(m) == smt.rows(F), "pre")
    c.st.assume(z3.And(smt.rows(X) == smt.rows(F), smt.cols(X) == n))
    got_draws.append((X, F, m))
    return CE.out(c, X)


got_draws = []


@spec("C20", MOD, "antithetic", contracts={"albatross::score::detail::draw_mvn": draws})
def antithetic(v):
    """the draws and their reflections in the mean"""
    del got_draws[:]
    N, m, F = v.a(0), v.a(1), v.a(2)
    v.requires(z3.And(smt.cols(m) == 1, smt.rows(m) == smt.rows(F), smt.rows(F) == smt.cols(F), N > 1))
    k = N / 2 + 1
    for p in v.run():
        (X, G, mm), = got_draws
        p.ensure("draws of the distribution", z3.And(G == F, mm == m, smt.cols(X) == k))
        r = p.ret
        p.ensure("twice as many samples", z3.And(smt.rows(r) == smt.rows(F), smt.cols(r) == 2 * k))
        p.ensure("the draws and their reflections", forall([I_, J_], implies(z3.And(rng(I_, 0, smt.rows(F)), rng(J_, 0, k)), z3.And(
            smt.at(r, I_, J_) == smt.at(X, I_, J_), smt.at(r, I_, J_ + k) == 2 * at(m, I_) - smt.at(X, I_, J_))), smt.at(X, I_, J_)))


@spec("C20", MOD, "draw")
def draw(v):
    """a transformation of standard normal draws with the covariance of the decomposition, shifted by the mean"""
    F, m, n = v.a(0), v.a(1), v.a(2)
    k = smt.rows(F)
    v.requires(z3.And(smt.cols(m) == 1, smt.rows(m) == k, smt.rows(F) == smt.cols(F), n >= 0))
    for x in ldlt_facts(F):
        v.requires(x)
    v.requires(forall(I_, implies(rng(I_, 0, k), at(D_(F), I_) > 0), at(D_(F), I_)))      # positive definite
    L, P, S = L_(F), P_(F), mdiagm(SD_(F))
    T = mmul(mtr(P), mmul(L, S))
    # the transformation has the covariance of the decomposition
    R = Ring()
    R.factored(F)
    for p in v.run():
        r = p.ret
        Zs = consts(r, "standard_normal_matrix")
        p.ensure("one set of standard normal draws", z3.BoolVal(len(Zs) == 1))
        X = Zs[0]
        p.ensure("one for every entry", z3.And(smt.rows(X) == k, smt.cols(X) == n))
        p.ensure("root of the diagonal", meq(smt.cwise("sqrt")(D_(F)), SD_(F)))
        Q = Ring()
        for e in reductions(r, (smt.mdiagm,)):
            p.ensure("the diagonal", implies(meq(e.arg(0), SD_(F)), meq(e, S)))
            Q.define(e, S)
        Y = mmul(T, X)
        p.algebra("transformed draws", Q, meq(smt.msub(r, smt.mrep(m, n)), Y))
        p.ensure("shifted by the mean", z3.And(smt.rows(r) == k, smt.cols(r) == n, forall([I_, J_], implies(z3.And(rng(I_, 0, k), rng(J_, 0, n)),
                 smt.at(r, I_, J_) == smt.at(smt.msub(r, smt.mrep(m, n)), I_, J_) + at(m, I_)), smt.at(r, I_, J_))))
        p.algebra("covariance of the draws", R, meq(mmul(T, mtr(T)), mmul(smt.mid(k, k), F)))


def consts(e, prefix):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
            if z3.is_const(x) and x.decl().name().startswith(prefix):
                out.append(x)
    return out


ERR = smt.uf("error_norms", MAT, MAT, MAT, REAL)
PAIR = smt.uf("pair_norms", MAT, MAT, MAT, REAL)
NEXT = smt.uf("advanced", INT, INT)
got_samples = []


def energy_errors(c):
    """specified in errors"""
    s, t, w = [CE.val(c, k) for k in range(3)]
    c.ex.oblige(c.st, "errors of samples", z3.And(smt.cols(t) == 1, smt.rows(t) == smt.rows(s), smt.rows(w) == smt.rows(s), smt.cols(w) == 1, smt.cols(s) > 0), "pre")
    return c.ret(Leaf("f64", ERR(s, t, w)))


def energy_pairs(c):
    """specified in pairs"""
    s, t, w = [CE.val(c, k) for k in range(3)]
    c.ex.oblige(c.st, "pairs of samples", z3.And(smt.rows(t) == smt.rows(s), smt.cols(t) == smt.cols(s), smt.rows(w) == smt.rows(s), smt.cols(w) == 1, smt.cols(s) > 0), "pre")
    y = z3.Const("sy", MAT)
    # triangle inequality of the norm, which is a norm as no weight is negative
    c.st.assume(forall(y, PAIR(s, t, w) <= ERR(s, y, w) + ERR(t, y, w), ERR(s, y, w)))
    return c.ret(Leaf("f64", PAIR(s, t, w)))


def samples(c):
    """specified in antithetic; the state of the generator advances"""
    n, m, F, g = c.args[0], CE.val(c, 1), CE.val(c, 2), c.args[3]
    n = n.e if isinstance(n, Leaf) else n
    state = c.ex.node_at(c.st, g)
    state = state.e if isinstance(state, Leaf) else z3.Int(fresh_name("state"))
    c.ex.write(c.st, g, Leaf("i64", NEXT(state)))
    X = z3.Const(fresh_name("samples"), MAT)
    c.st.assume(z3.And(smt.rows(X) == smt.rows(F), smt.cols(X) == 2 * (n / 2 + 1)))
    got_samples.append((X, n, m, F, state))
    return CE.out(c, X)


SAMPLING = {"albatross::score::detail::mean_err_norms": energy_errors, "albatross::score::detail::pairwise_errors_paired": energy_pairs,
            "albatross::score::detail::antithetic_sample": samples}


def maximum(a, b):
    return z3.If(a >= b, a, b)


def energy_spec(fn, weight):
    @spec("C20", MOD, fn, contracts=SAMPLING)
    def s(v):
        """E|X - y| - E|X - X'| / 2 over two independent sets of samples of the predictive distribution"""
        del got_samples[:]
        P, y, N = v.pre[0], v.a(1), v.a(4 if weight else 3)
        m, c = mean(P), cov(P)
        n = smt.rows(m)
        w = v.a(2) if weight else smt.mconst(n, z3.IntVal(1), z3.RealVal(1))
        v.requires(z3.And(n > 0, smt.cols(m) == 1, smt.rows(c) == n, smt.cols(c) == n, smt.rows(y) == n, smt.cols(y) == 1, N > 1))
        if weight:
            v.requires(z3.And(smt.rows(w) == n, smt.cols(w) == 1))
        for p in v.run():
            q = len(got_samples)
            (X, n1, m1, F1, s1), (Y, n2, m2, F2, s2) = got_samples[:2]
            for (Q, k, mm, G, t) in got_samples:
                p.ensure("samples of the predictive distribution", z3.And(k == N, meq(mm, m), meq(G, SYM(c))))
            p.ensure("two sets of samples", z3.BoolVal(q == 2))
            p.ensure("independent of each other", z3.Or(s2 == NEXT(s1), s1 == NEXT(s2)))
            u = reductions(z3.Sum([p.ret] + [z3.RealVal(0)]), (PAIR,)) + [e for f in p.st.facts for e in reductions(f, (PAIR,)) if not has_bound(e)]
            e = u[0].arg(2)
            p.ensure("weights", meq(e, w))
            p.ensure("energy score", p.ret == maximum(z3.RealVal(0), (ERR(X, y, e) + ERR(Y, y, e)) / 2 - PAIR(X, Y, e) / 2))


energy_spec("energy", True)
energy_spec("energy_unweighted", False)


def has_bound(e):
    return any(z3.is_var(x) for x in subterms(e))


def subterms(e):
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        out.append(x)
        todo += x.children()
    return out


ES = smt.uf("energy_score", MAT, MAT, MAT, MAT, INT, INT, REAL)


def score_of(c):
    if "Eigen::Matrix" not in c.params[1]:
        return NotImplemented
    m, C, y = CE.nodeval(c, c.ex.node_at(c.st, c.args[0])), CE.nodeval(c, c.ex.node_at(c.st, c.args[0].add(64))), CE.val(c, 1)
    got_samples.append((m, C, y))
    n = lambda x: x.e if isinstance(x, Leaf) else x
    return c.ret(Leaf("f64", ES(m, C, y, CE.val(c, 2), n(c.args[3]), n(c.args[4]))))


@spec("C20", MOD, "energy_truth", contracts={"albatross::score::energy_score": score_of})
def energy_truth(v):
    """of an uncertain truth: its variance is added to the covariance of the prediction"""
    del got_samples[:]
    P, T = v.pre[0], v.pre[1]
    d, C = combined(v, P, T, True)
    n = smt.rows(mean(P))
    for p in v.run():
        m, c, y = got_samples[-1]
        p.ensure("score of the total distribution", p.ret == ES(m, c, y, v.a(2), v.a(3), v.a(4)))
        p.ensure("mean and truth", z3.And(meq(m, mean(P)), meq(y, mean(T))))
        p.ensure("covariance of the prediction plus the noise of the truth", z3.And(smt.rows(c) == n, smt.cols(c) == n, forall([I_, J_], implies(
            z3.And(rng(I_, 0, n), rng(J_, 0, n)), smt.at(c, I_, J_) == C(I_, J_)), smt.at(c, I_, J_))))


row_sums = []
EA = smt.uf("expected_abs", REAL, REAL, REAL)


def first_moment(c):
    """specified in abs_1"""
    return c.ret(Leaf("f64", EA(*[x.e if isinstance(x, Leaf) else x for x in c.args])))


def row_sum(c):
    """sum of the terms of a row: of products of two equal factors and one other, which are the parts of the terms of that row; the
    rows are told apart by their lengths"""
    (n, w, Y, Q), = row_sums
    A = CE.val(c, 0)
    fs, todo = [], [A]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl() == smt.mcmul:
            todo += x.children()
        else:
            fs.append(x)
    one = [x for x in fs if sum(x.eq(y) for y in fs) == 1]
    two = [x for x in fs if sum(x.eq(y) for y in fs) == 2]
    if len(one) != 1 or len(two) != 2:
        return c.ret(smt.msum(A))
    k, r = z3.Int(fresh_name("entry")), n - 1 - smt.rows(A)
    inside = rng(k, 0, smt.rows(A))
    c.ex.oblige(c.st, "sum of a row of terms", z3.And(smt.cols(A) == 1, r >= 0), "pre")
    c.ex.oblige(c.st, "weight of a term", implies(inside, at(one[0], k) == smt.at(w, r, r + 1 + k)), "pre")
    c.ex.oblige(c.st, "difference of a term", implies(inside, at(two[0], k) == Y(r, r + 1 + k)), "pre")
    return c.ret(Leaf("f64", Q(r, smt.rows(A))))


def variogram_spec(fn, order, weight=True):
    @spec("C20", MOD, fn, contracts={"Eigen::DenseBase::sum": row_sum, "albatross::score::detail::expected_abs_normal_1": first_moment})
    def s(v):
        """weighted sum over the pairs of the squared difference of the variogram of the truth and the expected one"""
        P, y = v.pre[0], v.a(1)
        m, c = mean(P), cov(P)
        n = smt.rows(m)
        w = v.a(2) if weight else smt.mconst(n, n, z3.RealVal(1))
        v.requires(z3.And(n > 0, smt.cols(m) == 1, smt.rows(c) == n, smt.cols(c) == n, smt.rows(y) == n, smt.cols(y) == 1))
        pair = z3.And(rng(I_, 0, n), rng(J_, 0, n))
        if weight:
            v.requires(z3.And(smt.rows(w) == n, smt.cols(w) == n))
            v.requires(forall([I_, J_], implies(pair, smt.at(w, I_, J_) >= 0), smt.at(w, I_, J_)))
        variance = lambda i, j: smt.at(c, i, i) + smt.at(c, j, j) - 2 * smt.at(c, i, j)
        v.requires(forall([I_, J_], implies(pair, variance(I_, J_) >= 0), smt.at(c, I_, J_)))     # variance of the difference

        # the parts of the terms, named so that products of equal parts are recognised
        def named(name, f):
            g = z3.Function(fresh_name(name), INT, INT, REAL)
            v.requires(forall([I_, J_], g(I_, J_) == f(I_, J_), g(I_, J_)))
            return g
        A_ = named("distance", lambda i, j: absolute(at(y, i) - at(y, j)))
        M_ = named("drift", lambda i, j: at(m, j) - at(m, i))
        V_ = named("deviation", lambda i, j: sqrt(variance(i, j)))
        T_ = named("truth", lambda i, j: A_(i, j) * A_(i, j) if order == 2 else A_(i, j))
        E_ = named("expected", lambda i, j: M_(i, j) * M_(i, j) + V_(i, j) * V_(i, j) if order == 2 else EA(M_(i, j), V_(i, j)))
        Y_ = named("difference", lambda i, j: T_(i, j) - E_(i, j))

        def term(i, j):
            return smt.at(w, i, j) * Y_(i, j) * Y_(i, j)
        Q = smt.uf(fresh_name("row_total"), INT, INT, REAL)
        v.requires(forall(I_, Q(I_, Z) == 0, Q(I_, Z)))
        v.requires(forall([I_, J_], implies(J_ >= 0, Q(I_, J_ + 1) == Q(I_, J_) + term(I_, I_ + 1 + J_)), Q(I_, J_ + 1)))
        S = sum_of(v, "total", lambda i: Q(i, n - i - 1))
        # sums of terms which are not negative are not negative: lemma below
        v.requires(forall([I_, J_], implies(z3.And(I_ >= 0, J_ >= 0, I_ + J_ < n), Q(I_, J_) >= 0), Q(I_, J_)))
        v.requires(forall(I_, implies(rng(I_, 0, n), S(I_) >= 0), S(I_)))
        del row_sums[:]
        row_sums.append((n, w, Y_, Q))
        v.template(running(S))
        for p in v.run():
            p.ensure("sum over the pairs", p.ret == S(n - 1))


variogram_spec("variogram", 2)
variogram_spec("madogram", 1)
variogram_spec("variogram_unweighted", 2, weight=False)


@spec("C20", MOD, None, name="sums of squares")
def nonnegative(v):
    """a sum of products of weights and squares is not negative"""
    a, w, x, i = z3.Function("sum_a", INT, REAL), z3.Function("weight", INT, REAL), z3.Function("summand", INT, REAL), z3.Int("i")
    v.ensure("no terms", [a(0) == 0], a(0) >= 0)
    v.ensure("one more term", [a(i + 1) == a(i) + w(i) * square(x(i)), a(i) >= 0, w(i) >= 0], a(i + 1) >= 0)


VS = smt.uf("variogram_score", MAT, MAT, MAT, MAT, REAL)


def variogram_of(c):
    if "Eigen::Matrix" not in c.params[1]:
        return NotImplemented
    m, C, y = CE.nodeval(c, c.ex.node_at(c.st, c.args[0])), CE.nodeval(c, c.ex.node_at(c.st, c.args[0].add(64))), CE.val(c, 1)
    got_samples.append((m, C, y, c.args[3]))
    return c.ret(Leaf("f64", VS(m, C, y, CE.val(c, 2))))


@spec("C20", MOD, "variogram_truth", contracts={"albatross::score::variogram_score": variogram_of})
def variogram_truth(v):
    """of an uncertain truth: its variance is added to the covariance of the prediction"""
    del got_samples[:]
    P, T = v.pre[0], v.pre[1]
    d, C = combined(v, P, T, True)
    n = smt.rows(mean(P))
    for p in v.run():
        m, c, y, order = got_samples[-1]
        order = order.e if isinstance(order, Leaf) else order
        p.ensure("score of the total distribution, of the same order", z3.And(p.ret == VS(m, c, y, v.a(2)), order == 0))
        p.ensure("mean and truth", z3.And(meq(m, mean(P)), meq(y, mean(T))))
        p.ensure("covariance of the prediction plus the noise of the truth", z3.And(smt.rows(c) == n, smt.cols(c) == n, forall([I_, J_], implies(
            z3.And(rng(I_, 0, n), rng(J_, 0, n)), smt.at(c, I_, J_) == C(I_, J_)), smt.at(c, I_, J_))))
