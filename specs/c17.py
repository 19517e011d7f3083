"""C17: Gaussian densities, chi-squared distribution function and the uniform Kolmogorov-Smirnov statistic."""
from speclib import *
from smt import fn_log, fn_exp, fn_sqrt

MOD = "scalar_math"
half = z3.RealVal("1/2")
TWO_PI = z3.RealVal("6.283185307179586")
EPS = z3.RealVal(1) / z3.RealVal(2 ** 52)
IG = "albatross::incomplete_gamma"


def ig(a, z):
    return smt.uf("incomplete_gamma", REAL, REAL, REAL)(a, z)


def ig_summary(c):
    """callee contract of incomplete_gamma: the function of its two arguments (its range and limits are specified separately)"""
    return [(c.st, ig(c.args[0], c.args[1]))]


@spec("C17", MOD, "log_pdf")
def log_pdf(v):
    d, s = v.a(0), v.a(1)
    v.requires(s > 0)
    for p in v.run():
        p.ensure("Gaussian log density", near(p.ret, -half * d * d / s - half * fn_log(TWO_PI * s)))


@spec("C17", MOD, "pdf")
def pdf(v):
    d, s = v.a(0), v.a(1)
    v.requires(s > 0)
    for p in v.run():
        p.ensure("Gaussian density", near(p.ret, fn_exp(-(d * d) / (2 * s)) / fn_sqrt(TWO_PI * s)))


def cdf(x, k):
    return z3.If(k == 0, z3.RealVal(1), z3.If(x < EPS, z3.RealVal(0), ig(half * k, half * x)))


def chi(fn, arg):
    @spec("C17", MOD, fn, contracts={IG: ig_summary})
    def f(v):
        x, k = arg(v)
        v.requires(x >= 0)
        v.requires(z3.And(k >= 0, k < 2 ** 40))
        for p in v.run():
            p.ensure("chi-squared distribution function of the squared distance", p.ret == cdf(x, k))
    return f


def toreal(k, signed):
    return k if k.sort() == REAL else z3.ToReal(k)


chi("chi2_safe", lambda v: (v.a(0), v.a(1)))
chi("chi2_dbl", lambda v: (v.a(0), v.a(1)))
chi("chi2_size", lambda v: (v.a(0), toreal(v.a(1), False)))
chi("chi2_int", lambda v: (v.a(0), toreal(v.a(1), True)))
chi("chi2_dev", lambda v: (v.a(0) * v.a(0) / v.a(1), toreal(v.a(2), False)))


@spec("C17", MOD, "ig", contracts={"albatross::details::incomplete_gamma_continuous_fraction": lambda c: [(c.st, smt.uf("igcf", REAL, REAL, REAL)(*c.args))],
                                   "albatross::details::incomplete_gamma_quadrature": lambda c: [(c.st, smt.uf("igq", REAL, REAL, REAL)(*c.args))]})
def ig_spec(v):
    a, z = v.a(0), v.a(1)
    v.requires(a >= 0)
    for p in v.run():
        p.ensure("limits and method per range", p.ret == z3.If(z < EPS, z3.RealVal(0), z3.If(
            a < EPS, z3.RealVal(1), z3.If(a < 10, smt.uf("igcf", REAL, REAL, REAL)(a, z), smt.uf("igq", REAL, REAL, REAL)(a, z)))))


@spec("C17", MOD, "ig_num")
def ig_num(v):
    a, z, k = v.a(0), v.a(1), v.a(2)
    d = z3.ToReal(k)
    v.requires(z3.And(k >= 0, k < 2 ** 40))
    for p in v.run():
        p.ensure("coefficient of the continued fraction",
                 p.ret == z3.If(k % 2 == 0, half * d * z, -(a - 1 + half * (d + 1)) * z))


def cf_levels(a, z):
    """the continued fraction gamma(a,z) z^-a e^z = 1/(a - a z/(a+1 + z/(a+2 - ...))) truncated at depth 55"""
    r = a + 55 - 1
    for d in range(54, 0, -1):
        n = z3.RealVal(d) / 2 * z if d % 2 == 0 else -(a - 1 + z3.RealVal(d + 1) / 2) * z
        r = (a + d - 1) + n / r
    return r


@spec("C17", MOD, "ig_cf_den")
def ig_cf_den(v):
    a, z = v.a(0), v.a(1)
    for p in v.run():
        p.ensure("denominator is the truncated continued fraction", p.ret == cf_levels(a, z))


DEN = "albatross::details::incomplete_gamma_continuous_fraction"


def den_summary(c):
    """contract of the recursive overload, proved by the denominator specification above"""
    if len(c.args) == 2:
        return NotImplemented
    return [(c.st, smt.uf("igden", REAL, REAL, REAL)(c.args[0], c.args[1]))]


@spec("C17", MOD, "ig_cf", contracts={DEN: den_summary})
def ig_cf(v):
    a, z = v.a(0), v.a(1)
    v.requires(z3.And(a > 0, z > 0))
    num = fn_exp(a * fn_log(z) - z) / smt.uf("fn_tgamma", REAL, REAL)(a)
    v.requires(num > 0)
    den = smt.uf("igden", REAL, REAL, REAL)(a, z)
    mx = z3.If(den > num, den, num)
    for p in v.run():
        p.ensure("within the unit interval", z3.And(p.ret >= 0, p.ret <= 1))
        p.ensure("power series factor over the continued fraction", z3.Or(p.ret == 1, p.ret == num / mx))
        p.ensure("saturates only near one", implies(mx - num >= z3.RealVal("1e-11"), p.ret == num / mx))


@spec("C17", MOD, "ig_bounds")
def ig_bounds(v):
    a, z = v.a(0), v.a(1)
    v.requires(z3.And(a > 0, z > 0))
    mn = lambda x, y: z3.If(y < x, y, x)
    for p in v.run():
        ks = sorted(p.ret.d)
        lb, ub = p.ret.d[ks[0]].e, p.ret.d[ks[1]].e
        p.ensure("integration range inside [0, z]", z3.And(lb >= 0, lb <= z, ub <= z))
        p.ensure("lower end at least twelve deviations below", z3.Or(lb == 0, lb == mn(z, a) - 12 * fn_sqrt(a)))
        p.ensure("upper end at least thirteen deviations above or z", z3.Or(ub == z, ub == a + 13 * fn_sqrt(a + 1)))


@spec("C17", MOD, "ig_quad_fn")
def ig_quad_fn(v):
    x, a, l = v.a(0), v.a(1), v.a(2)
    for p in v.run():
        p.ensure("integrand", p.ret == fn_exp(-x + (a - 1) * fn_log(x) - l))


@spec("C17", MOD, "ks")
def ks(v):
    s = v.pre[0]
    n = s.n.e
    srt = v_sorted(v, s)
    d = z3.ToReal

    def dev(i):
        a = (d(i) + 1) / d(n) - z3.Select(srt, i)
        b = z3.Select(srt, i) - d(i) / d(n)
        return z3.If(a < b, b, a)
    M = fold(v, "maxdev", REAL, z3.RealVal(0), lambda i, r: z3.If(dev(i) > r, dev(i), r))

    def t(ctx):
        out = []
        for a, ga in ctx.reals():
            for b, gb in ctx.ints():
                out.append(("running maximum %s %s" % (a, b), lambda st, ga=ga, gb=gb: z3.And(ga(st) == M(gb(st)), gb(st) >= 0, gb(st) <= n)))
        return out
    v.template(t)
    for p in v.run():
        p.ensure("largest deviation between the sample and the uniform distribution function", p.ret == M(n))


def v_sorted(v, s):
    import contracts_std as CS
    f = CS.sorted_fn(s.el.e.sort()) if callable(getattr(CS, "sorted_fn", None)) else None
    return f(s.el.e, z3.IntVal(0), s.n.e)
