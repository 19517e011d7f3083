"""C16: Chebyshev polynomials of both kinds by their defining recurrence, for every degree and all arguments in [-1,1]."""
from speclib import *
from c10 import mat_is, at, I_, J_

MOD = "chebyshev"
X = z3.Real("cx")
N = z3.Int("cn")


def poly(v, second):
    """ghost P(n, x): the polynomial's defining recurrence"""
    nm = "U" if second else "T"
    f = z3.Function(fresh_name(nm), INT, REAL, REAL)
    g = z3.Function(fresh_name(nm + "_"), INT, REAL, REAL)
    c = 2 if second else 1
    v.requires(forall([N, X], z3.And(f(N, X) == g(N, X), implies(N == 0, f(N, X) == 1), implies(N == 1, f(N, X) == c * X), implies(N == 2, f(N, X) == 2 * c * X * X - 1),
                                     implies(N >= 2, f(N, X) == 2 * X * g(N - 1, X) - g(N - 2, X))), f(N, X)))
    f.limited = g
    return f


def unit(x):
    return forall(I_, implies(rng(I_, 0, smt.rows(x)), z3.And(at(x, I_) >= -1, at(x, I_) <= 1)), at(x, I_))


def evaluate(fn, second):
    @spec("C16", MOD, fn)
    def f(v):
        n, x = v.a(0), v.a(1)
        v.requires(n >= 0)
        v.requires(z3.And(smt.cols(x) == 1, unit(x)))
        P = poly(v, second)

        def t(ctx):
            out = []
            for mn, mg in ctx.mats():
                for pn, pg in ctx.ints():
                    for d in (-1, -2, -3, 0):
                        out.append(("%s = P(%s%+d)" % (mn, pn, d), lambda s, mg=mg, pg=pg, d=d: z3.And(smt.rows(mg(s).e) == smt.rows(x), smt.cols(mg(s).e) == 1,
                                    forall(I_, implies(rng(I_, 0, smt.rows(x)), at(mg(s).e, I_) == P(pg(s) + d, at(x, I_))), at(mg(s).e, I_)))))
            return out
        v.template(t)
        for p in v.run():
            p.ensure("the polynomial at every argument", mat_is(p.ret, smt.rows(x), z3.IntVal(1), lambda i, j: P(n, at(x, i))))
    return f


def basis(fn, second):
    @spec("C16", MOD, fn)
    def f(v):
        n, x = v.a(0), v.a(1)
        v.requires(z3.And(n >= 0, n < 2 ** 31))
        v.requires(z3.And(smt.cols(x) == 1, unit(x)))
        P = poly(v, second)

        def t(ctx):
            out = []
            for mn, mg in ctx.mats():
                for pn, pg in ctx.ints():
                    e = lambda s, mg=mg: smt.at(mg(s).e, I_, J_)
                    out.append(("columns of %s below %s" % (mn, pn), lambda s, mg=mg, pg=pg: z3.And(smt.rows(mg(s).e) == smt.rows(x), smt.cols(mg(s).e) == n + 1,
                                forall([I_, J_], implies(z3.And(rng(I_, 0, smt.rows(x)), rng(J_, 0, pg(s))), smt.at(mg(s).e, I_, J_) == P(J_, at(x, I_))), smt.at(mg(s).e, I_, J_)))))
            return out
        v.template(t)
        for p in v.run():
            p.ensure("column k is the polynomial of degree k", mat_is(p.ret, smt.rows(x), n + 1, lambda i, j: P(j, at(x, i))))
    return f


evaluate("t", False)
evaluate("u", True)
basis("t_phi", False)
basis("u_phi", True)


@spec("C16", MOD, None, name="trigonometric form")
def trig(v):
    """the recurrence is the closed form: T_n(cos a) = cos(n a), U_n(cos a) sin a = sin((n+1) a): the two term recurrence is the pair of addition formulas"""
    c, s, c1, s1, c2, s2, cn, sn = z3.Reals("c s c1 s1 c2 s2 cn sn")
    hyp = [c * c + s * s == 1, c1 == cn * c + sn * s, s1 == sn * c - cn * s, c2 == cn * c - sn * s, s2 == sn * c + cn * s]

    v.ensure("cosine step", hyp, c2 == 2 * c * cn - c1)
    v.ensure("sine step", hyp, s2 == 2 * c * sn - s1)
