"""C06: radial, noise, constant and polynomial terms: formula, bounds, monotonicity, symmetry."""
from speclib import *
from smt import fn_exp, fn_log, fn_sqrt
import c04
from c05 import field, val
from c10 import mat_is, at, I_, J_

MOD = "radial"
R = z3.RealVal
dist = smt.uf("vpx::distance", INT, INT, REAL)
scale_ = smt.uf("vpx::scale", INT, REAL)
other = smt.uf("vpx::other", INT, INT, REAL)
S3, S5 = fn_sqrt(R(3)), fn_sqrt(R(5))

FORM = {"squared_exponential": lambda d, l: fn_exp(-((d / l) * (d / l))),
        "exponential": lambda d, l: fn_exp(-(d / l)),
        "matern_32": lambda d, l: (1 + S3 * d / l) * fn_exp(-(S3 * d / l)),
        "matern_52": lambda d, l: (1 + S5 * d / l + (S5 * d / l) * (S5 * d / l) / 3) * fn_exp(-(S5 * d / l))}


def cov(kind, d, l, s):
    return z3.If(l <= 0, R(0), s * s * FORM[kind](d, l))


def roots():
    return [z3.And(S3 > 0, S3 * S3 == 3), z3.And(S5 > 0, S5 * S5 == 5)]


def expfacts(u, w):
    """ground facts about the exponential for non-negative u, w"""
    E = lambda x: fn_exp(-x)
    return [fn_exp(R(0)) == 1, E(u) > 0, E(w) > 0, E(u + w) == E(u) * E(w), fn_exp(w) * E(w) == 1, fn_exp(w) >= 1 + w + w * w / 2]


def radial(kind, fn, args):
    @spec("C06", MOD, fn)
    def f(v):
        d, l, s = args(v)
        v.requires(d >= 0)
        for p in v.run():
            for h in roots():
                p.assume(h)
            p.ensure("documented function of distance, length scale and sigma", near(p.ret, cov(kind, d, l, s)))


# the four free functions, and the covariance functions over an arbitrary metric
for k in FORM:
    radial(k, k, lambda v: (v.a(0), v.a(1), v.a(2)))
    radial(k, "k_" + k, lambda v, k=k: (dist(val(v.pre[1]), val(v.pre[2])), field(v.pre[0], k + "_length_scale.value"), field(v.pre[0], "sigma_" + k + ".value")))


def bounds(kind):
    @spec("C06", MOD, None, name="bounds of the %s formula" % kind)
    def f(v):
        """0 <= k <= sigma^2, k(0) = sigma^2, non-increasing: in the scaled distances t and t + w"""
        t, w, s, e, et, ew = z3.Reals("t w s e et ew")
        # et = exp(-t), ew = exp(-w); exp(w) = 1/ew >= 1 + w + w^2/2
        hyp = [t >= 0, w >= 0, et > 0, et <= 1, ew > 0, ew <= 1, ew * (1 + w + w * w / 2) <= 1]
        P = {"exponential": lambda x: R(1), "squared_exponential": lambda x: R(1), "matern_32": lambda x: 1 + x, "matern_52": lambda x: 1 + x + x * x / 3}[kind]
        v.ensure("sigma squared at zero distance", [], P(R(0)) == 1)
        v.ensure("factor of a step", hyp, P(t + w) <= P(t) * (1 + w + w * w / 2))
        q, r, m = z3.Reals("q r m")      # q = P(t), r = P(t+w), m = 1 + w + w^2/2
        v.ensure("never negative", hyp, P(t) > 0)
        v.ensure("scaled step", [q > 0, r <= q * m, m > 0, ew > 0, ew * m <= 1], r * ew <= q)
        v.ensure("non-increasing", [q > 0, r * ew <= q, et > 0], r * (et * ew) <= q * et)
        v.ensure("times sigma squared", [r * (et * ew) <= q * et, q * et > 0, r > 0, ew > 0], z3.And(s * s * (r * (et * ew)) <= s * s * (q * et), s * s * (q * et) >= 0))
        x, y, l = z3.Reals("x y l")
        v.ensure("scaled distance is monotone", [0 <= x, x <= y, l > 0], z3.And(x / l <= y / l, x / l >= 0))
        if kind == "squared_exponential":
            v.ensure("squared scaled distance is monotone", [0 <= x, x <= y], x * x <= y * y)


for k in FORM:
    bounds(k)


@spec("C06", MOD, "distances", cand_ms=600)
def distances(v):
    xs = v.pre[1]
    n = xs.n.e
    e = lambda i, j: dist(val(sel(xs.el, i)), val(sel(xs.el, j)))
    i, j = z3.Ints("si sj")
    v.requires(n < 2 ** 31)
    v.requires(forall([i, j], dist(i, j) == dist(j, i), dist(i, j)))

    def conds(ctx):
        out = []
        for n1, g1 in ctx.ints():
            out.append(("square below %s" % n1, lambda s, i, j, g1=g1: z3.And(i < g1(s), j < g1(s))))
        for n1, g1 in c04.counters(ctx):
            for n2, g2 in ctx.ints():
                out.append(("square below %s and its border up to %s" % (n1, n2), lambda s, i, j, g1=g1, g2=g2: z3.Or(z3.And(i < g1(s), j < g1(s)), z3.And(i == g1(s), j < g2(s)), z3.And(j == g1(s), i < g2(s)))))
        return out
    v.template(c04.shapes(n, n, conds, e))
    v.template(c04.shapes(n, n, c04.serial, e))
    for p in v.run():
        p.ensure("entry (i,j) is the distance of i and j", mat_is(p.ret, n, n, e))


def value(fn, want):
    @spec("C06", MOD, fn)
    def f(v):
        w = want(v)
        for p in v.run():
            p.ensure("documented value", p.ret == w)


value("euclidean", lambda v: z3.If(v.a(1) >= v.a(2), v.a(1) - v.a(2), v.a(2) - v.a(1)))


def dot_facts(v, x, y):
    """bilinearity and symmetry of the inner product, on the vectors at hand"""
    a, b, d = smt.msub(x, y), smt.msub(y, x), smt.mdot
    v.requires(z3.And(smt.rows(x) == smt.rows(y), smt.cols(x) == 1, smt.cols(y) == 1))
    for h in (d(x, x) >= 0, d(y, y) >= 0, d(x, y) == d(y, x), d(a, a) == d(x, x) - 2 * d(x, y) + d(y, y), d(b, b) == d(x, x) - 2 * d(x, y) + d(y, y), d(a, a) >= 0):
        v.requires(h)


@spec("C06", MOD, "euclidean_vector")
def euclidean_vector(v):
    x, y = v.a(1), v.a(2)
    dot_facts(v, x, y)
    for p in v.run():
        p.ensure("norm of the difference", z3.And(p.ret >= 0, p.ret * p.ret == smt.mdot(x, x) - 2 * smt.mdot(x, y) + smt.mdot(y, y)))


@spec("C06", MOD, "radial")
def radial_(v):
    x, y = v.a(1), v.a(2)
    dot_facts(v, x, y)
    a, b = fn_sqrt(smt.mdot(x, x)), fn_sqrt(smt.mdot(y, y))
    for p in v.run():
        p.ensure("difference of the norms", p.ret == z3.If(a >= b, a - b, b - a))


@spec("C06", MOD, "angular")
def angular(v):
    x, y = v.a(1), v.a(2)
    dot_facts(v, x, y)
    nx, ny = fn_sqrt(smt.mdot(x, x)), fn_sqrt(smt.mdot(y, y))
    v.requires(z3.And(nx > 0, ny > 0))
    c = smt.mdot(x, y) / (nx * ny)
    acos = smt.uf("fn_acos", REAL, REAL)
    tiny = R("1e-14")
    for p in v.run():
        p.ensure("angle between the vectors", z3.Or(p.ret == acos(c), z3.And(p.ret == 0, c > 1 - tiny), z3.And(near(p.ret, R("3.141592653589793")), c < -1 + tiny)))
        p.ensure("parallel vectors", implies(c == 1, p.ret == 0))
        p.ensure("opposite vectors", implies(c == -1, near(p.ret, R("3.141592653589793"))))


value("constant", lambda v: field(v.pre[0], "sigma_constant.value") * field(v.pre[0], "sigma_constant.value"))
value("nugget", lambda v: z3.If(v.a(1) == v.a(2), field(v.pre[0], "nugget_sigma.value") * field(v.pre[0], "nugget_sigma.value"), R(0)))
value("noise", lambda v: z3.If(v.a(1) == v.a(2), field(v.pre[0], "sigma_independent_noise.value") * field(v.pre[0], "sigma_independent_noise.value"), R(0)))
value("linear_mean", lambda v: field(v.pre[0], "slope.value") * v.a(1) + field(v.pre[0], "offset.value"))
value("zero_mean", lambda v: R(0))
value("scaling", lambda v: scale_(val(v.pre[1])) * scale_(val(v.pre[2])))
value("scaling_left", lambda v: scale_(val(v.pre[1])))
value("scaling_right", lambda v: scale_(val(v.pre[2])))
for fn in ("scaled", "scaled_right"):
    value(fn, lambda v: scale_(val(v.pre[1])) * other(val(v.pre[1]), val(v.pre[2])) * scale_(val(v.pre[2])))
for fn in ("scaled_undefined", "scaled_right_undefined"):
    value(fn, lambda v: other(val(v.pre[1]), val(v.pre[2])))


# ------------------------------------------------------------------ derived length scales
def valid(prior, inc):
    return z3.And(inc > 0, prior > 0, inc < prior)


def derived(kind, fn, k):
    @spec("C06", MOD, fn)
    def f(v):
        d, prior, inc = v.a(k), v.a(k + 1), v.a(k + 2)
        v.requires(z3.And(d > 0, prior > 0))
        r = inc / prior
        lg = fn_log(1 - r * r)
        for p in v.run():
            p.assume(implies(valid(prior, inc), z3.And(r > 0, r < 1, r * r < 1, r * r > 0, lg < 0)))
            p.assume(z3.And(fn_sqrt(R(2)) > 0, fn_sqrt(R(2)) * fn_sqrt(R(2)) == 2))
            L = p.ret
            if kind == "exponential":
                p.ensure("inverse of the noise equivalent", implies(valid(prior, inc), z3.And(L > 0, L * -lg == 2 * d)))
            else:
                p.ensure("inverse of the noise equivalent", implies(valid(prior, inc), z3.And(L > 0, L * L * -lg == 2 * d * d)))
            p.ensure("an unreachable increase gives the shortest length scale", implies(inc >= prior, near(L, d / 10000000)))
            p.ensure("no increase gives the longest length scale", implies(inc <= 0, L == d * 10000000))


for kind in ("squared_exponential", "exponential"):
    derived(kind, "derive_" + kind, 0)
    derived(kind, "member_" + kind, 1)


@spec("C06", MOD, "noise_equivalent")
def noise_equivalent(v):
    l, s, d = v.a(0), v.a(1), v.a(2)
    v.requires(z3.And(l > 0, s > 0, d >= 0))
    e = FORM["squared_exponential"](d, l)
    for p in v.run():
        p.assume(z3.And(fn_exp(R(0)) == 1, e > 0, e <= 1))
        p.ensure("standard deviation of one point given the other", p.ret == fn_sqrt(s * s - s * s * e * e))


@spec("C06", MOD, None, name="derived length scales reproduce the increase")
def inverse(v):
    d, L, prior, inc, r, lg, e, x = z3.Reals("d L prior inc r lg e x")
    # x is the exponent of the covariance at the reference distance; e = exp(x), e^2 = exp(2x) = 1 - r^2 when 2x = log(1 - r^2)
    base = [d > 0, L > 0, prior > 0, inc > 0, inc < prior, r == inc / prior]
    v.ensure("squared exponential exponent", base + [L * L * -lg == 2 * d * d, x == -(d / L) * (d / L)], 2 * x == lg)
    v.ensure("exponential exponent", base + [L * -lg == 2 * d, x == -(d / L)], 2 * x == lg)
    v.ensure("increase", base + [e * e == 1 - r * r], prior * prior - prior * prior * (e * e) == inc * inc)


def polynomial(order):
    @spec("C06", MOD, "polynomial_%d" % order)
    def f(v):
        s, x, y = v.a(0), v.a(1), v.a(2)
        want = s * s
        for i in range(order):
            want = want * x * y + s * s
        for p in v.run():
            p.ensure("documented value", p.ret == want)


for n in (0, 1, 3):
    polynomial(n)
