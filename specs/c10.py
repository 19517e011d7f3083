"""C10: distribution arithmetic is the arithmetic of Gaussian moments (means linear, covariances as A C A')."""
from speclib import *

MOD = "distributions"
I_, J_ = z3.Ints("mi mj")


def mean(n):
    return n.d[0].e


def cov(n):
    """variance vector of a marginal, covariance matrix of a joint distribution"""
    return n.d[64].e


def mat_is(m, r, c, f):
    t = smt.at(m, I_, J_)
    return z3.And(smt.rows(m) == r, smt.cols(m) == c,
                  forall([I_, J_], implies(z3.And(rng(I_, 0, r), rng(J_, 0, c)), t == f(I_, J_)), t))


def vec_eq(m, r, f):
    return mat_is(m, r, z3.IntVal(1), lambda i, j: f(i))


def at(m, i, j=0):
    return smt.at(m, i, z3.IntVal(j) if isinstance(j, int) else j)


def valid_marginal(n):
    return smt.rows(cov(n)) == smt.rows(mean(n))


def valid_joint(n):
    return z3.And(smt.rows(cov(n)) == smt.rows(mean(n)), smt.cols(cov(n)) == smt.rows(mean(n)))


def sized(v, *ns):
    for n in ns:
        v.requires(valid_joint(n) if n.ty is not None and "Joint" in str(n.ty) else valid_marginal(n))


def binary(fn, sign, joint_a, joint_b):
    @spec("C10", MOD, fn)
    def f(v):
        a, b = v.pre
        sized(v, a, b)
        n = smt.rows(mean(a))
        v.requires(smt.rows(mean(b)) == n)
        for p in v.run():
            p.ensure("mean", vec_eq(mean(p.ret), n, lambda i: at(mean(a), i) + sign * at(mean(b), i)))
            if not joint_a:
                p.ensure("variances add", vec_eq(cov(p.ret), n, lambda i: at(cov(a), i) + at(cov(b), i)))
            elif joint_b:
                p.ensure("covariances add", mat_is(cov(p.ret), n, n, lambda i, j: at(cov(a), i, j) + at(cov(b), i, j)))
            else:
                p.ensure("variances add on the diagonal", mat_is(cov(p.ret), n, n, lambda i, j: at(cov(a), i, j) + z3.If(
                    i == j, at(cov(b), i), z3.RealVal(0))))
    return f


binary("m_add", 1, False, False)
binary("m_sub", -1, False, False)
binary("j_add", 1, True, True)
binary("j_sub", -1, True, True)
binary("j_add_m", 1, True, False)
binary("j_sub_m", -1, True, False)


def scaled(fn, joint):
    @spec("C10", MOD, fn)
    def f(v):
        a, x = v.pre[0], v.pre[1].e
        sized(v, a)
        n = smt.rows(mean(a))
        for p in v.run():
            p.ensure("mean scales", vec_eq(mean(p.ret), n, lambda i: x * at(mean(a), i)))
            if joint:
                p.ensure("covariance scales by the square", mat_is(cov(p.ret), n, n, lambda i, j: x * x * at(cov(a), i, j)))
            else:
                p.ensure("variance scales by the square", vec_eq(cov(p.ret), n, lambda i: x * x * at(cov(a), i)))
    return f


scaled("m_scale", False)
scaled("j_scale", True)


def equality(fn, joint):
    @spec("C10", MOD, fn)
    def f(v):
        a, b = v.pre
        sized(v, a, b)
        n = smt.rows(mean(a))
        v.requires(smt.rows(mean(b)) == n)
        same = [vec_eq(mean(b), n, lambda i: at(mean(a), i)),
                mat_is(cov(b), n, n, lambda i, j: at(cov(a), i, j)) if joint else vec_eq(cov(b), n, lambda i: at(cov(a), i))]
        for p in v.run():
            p.ensure("equal implies same mean", implies(p.ret, same[0]))
            p.ensure("equal implies same covariance", implies(p.ret, same[1]))
            p.ensure("same moments are equal", implies(z3.And(same), p.ret))
    return f


equality("m_eq", False)
equality("j_eq", True)


@spec("C10", MOD, "m_mean")
def m_mean(v):
    m = v.a(0)
    for p in v.run():
        p.ensure("mean", vec_eq(mean(p.ret), smt.rows(m), lambda i: at(m, i)))
        p.ensure("no variance", vec_eq(cov(p.ret), smt.rows(m), lambda i: z3.RealVal(0)))


@spec("C10", MOD, "m_make")
def m_make(v):
    m, w = v.a(0), v.a(1)
    v.requires(smt.rows(m) == smt.rows(w))
    for p in v.run():
        p.ensure("mean", vec_eq(mean(p.ret), smt.rows(m), lambda i: at(m, i)))
        p.ensure("variance", vec_eq(cov(p.ret), smt.rows(m), lambda i: at(w, i)))


@spec("C10", MOD, "j_make")
def j_make(v):
    m, w = v.a(0), v.a(1)
    n = smt.rows(m)
    v.requires(z3.And(smt.rows(w) == n, smt.cols(w) == n))
    for p in v.run():
        p.ensure("mean", vec_eq(mean(p.ret), n, lambda i: at(m, i)))
        p.ensure("covariance", mat_is(cov(p.ret), n, n, lambda i, j: at(w, i, j)))


for fn_ in ("m_scalar", "j_scalar"):
    @spec("C10", MOD, fn_)
    def scalar_(v):
        for p in v.run():
            one = z3.IntVal(1)
            p.ensure("mean", vec_eq(mean(p.ret), one, lambda i: v.a(0)))
            p.ensure("variance", mat_is(cov(p.ret), one, one, lambda i, j: v.a(1)))


def entry(fn, joint, at_):
    @spec("C10", MOD, fn)
    def f(v):
        a, i = v.pre[0], v.pre[1].e
        sized(v, a)
        v.requires(rng(i, 0, smt.rows(mean(a))))
        var = at(cov(a), i, i) if joint else at(cov(a), i)
        for p in v.run():
            if at_:
                one = z3.IntVal(1)
                p.ensure("mean", vec_eq(mean(p.ret), one, lambda k: at(mean(a), i)))
                p.ensure("variance", vec_eq(cov(p.ret), one, lambda k: var))
            else:
                p.ensure("variance", p.ret == var)
    return f


entry("m_diag", False, False)
entry("j_diag", True, False)
entry("m_at", False, True)
entry("j_at", True, True)


@spec("C10", MOD, "j_marginal")
def j_marginal(v):
    a = v.pre[0]
    sized(v, a)
    n = smt.rows(mean(a))
    for p in v.run():
        p.ensure("mean", vec_eq(mean(p.ret), n, lambda i: at(mean(a), i)))
        p.ensure("variances are the diagonal", vec_eq(cov(p.ret), n, lambda i: at(cov(a), i, i)))


for fn_ in ("m_size", "j_size"):
    @spec("C10", MOD, fn_)
    def size_(v):
        a = v.pre[0]
        sized(v, a)
        for p in v.run():
            p.ensure("number of elements", p.ret == smt.rows(mean(a)))
