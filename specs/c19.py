"""C19: every prior is the logarithm of the density it names, with the bounds of its support."""
from speclib import *
from smt import fn_log

MOD = "scalar_math"
INF = z3.Real("INF")
L2PI = None


def R(x):
    return z3.RealVal(repr(x))


LOG_2PI = R(1.8378770664093453)
LOG_2 = R(0.6931471805599453)


def F(v, i):
    """field i (in declaration order) of the prior passed as argument 0"""
    n = v.pre[0]
    fs = [n.d[k] for k in sorted(n.d) if isinstance(n.d[k], Leaf) and n.d[k].kind == "f64"]
    return fs[i].e


def closed(name, fn, want, req=None):
    @spec("C19", MOD, fn, name=name)
    def f(v):
        if req:
            v.requires(req(v))
        for p in v.run():
            w = want(v)
            p.ensure(name, near(p.ret, w) if w.sort() == REAL else p.ret == w)
    return f


half = z3.RealVal("1/2")


def gauss(v, t):
    d = (t - F(v, 0)) / F(v, 1)
    return -half * (LOG_2PI + 2 * fn_log(F(v, 1)) + d * d)


pos = lambda v: F(v, 1) > 0
closed("uniform density", "uniform_pdf",
       lambda v: z3.If(z3.And(v.a(1) >= F(v, 0), v.a(1) <= F(v, 1)), -fn_log(F(v, 1) - F(v, 0)), -INF))
closed("uniform lower bound", "uniform_lb", lambda v: F(v, 0))
closed("uniform upper bound", "uniform_ub", lambda v: F(v, 1))
closed("log-scale uniform density", "lsu_pdf",
       lambda v: z3.If(z3.And(v.a(1) >= F(v, 0), v.a(1) <= F(v, 1)), -fn_log(F(v, 1) - F(v, 0)), -INF))
closed("log-scale uniform lower bound", "lsu_lb", lambda v: F(v, 0))
closed("log-scale uniform upper bound", "lsu_ub", lambda v: F(v, 1))
closed("log-scale flag", "lsu_log", lambda v: z3.BoolVal(True))
closed("gaussian density", "gaussian_pdf", lambda v: gauss(v, v.a(1)), pos)
closed("gaussian lower bound", "gaussian_lb", lambda v: -INF)
closed("gaussian upper bound", "gaussian_ub", lambda v: INF)
closed("positive gaussian density", "pos_gaussian_pdf", lambda v: gauss(v, v.a(1)) + LOG_2,
       lambda v: z3.And(F(v, 1) > 0, v.a(1) >= 0))
closed("positive gaussian lower bound", "pos_gaussian_lb", lambda v: z3.RealVal(0))


def lognormal(v):
    d = (fn_log(v.a(1)) - F(v, 0)) / F(v, 1)
    return R(-0.5 * 1.8378770664093453) - fn_log(F(v, 1)) - fn_log(v.a(1)) - half * d * d


closed("log-normal density", "lognormal_pdf", lognormal, lambda v: z3.And(F(v, 1) > 0, v.a(1) > 0))
closed("positive density", "positive_pdf", lambda v: z3.If(v.a(1) > 0, z3.RealVal(0), -INF))
closed("positive lower bound", "positive_lb", lambda v: z3.RealVal(1) / z3.RealVal(2 ** 52))
closed("non-negative density", "nonneg_pdf", lambda v: z3.If(v.a(1) >= 0, z3.RealVal(0), -INF))
closed("non-negative lower bound", "nonneg_lb", lambda v: z3.RealVal(0))
closed("uninformative density", "uninf_pdf", lambda v: z3.RealVal(0))
closed("fixed density", "fixed_pdf", lambda v: z3.RealVal(0))
closed("fixed is fixed", "fixed_fixed", lambda v: z3.BoolVal(True))
closed("uniform is not fixed", "uniform_fixed", lambda v: z3.BoolVal(False))
closed("gaussian is not fixed", "gaussian_fixed", lambda v: z3.BoolVal(False))
closed("gaussian is not log scale", "gaussian_log", lambda v: z3.BoolVal(False))


# ------------------------------------------------------------------ the container dispatches to the prior it holds
# alternatives in the (serialization) order of PossiblePriors
ALTS = ["uninformative", "fixed", "non_negative", "positive", "uniform", "log_scale_uniform", "gaussian", "log_normal",
        "positive_gaussian"]


def holds(v, k, arg=0):
    n = v.pre[arg]
    ks = sorted(n.d)
    return n.d[ks[0]].e == len(ALTS) - 1 - k


def payload(n, k):
    import contracts_variant as CV
    base = sorted(n.d)[0]
    return [n.d[o].e for o in sorted(n.d) if (o - base) // CV.SLOT == k + 1 and n.d[o].kind == "f64"]


def bylaw(v, f):
    """value selected by the alternative held"""
    n = v.pre[0]
    r = f(0, payload(n, 0))
    for k in range(1, len(ALTS)):
        r = z3.If(holds(v, k), f(k, payload(n, k)), r)
    return r


def d_logpdf(v):
    x = v.a(1)

    def f(k, q):
        nm = ALTS[k]
        if nm in ("uninformative", "fixed"):
            return z3.RealVal(0)
        if nm == "non_negative":
            return z3.If(x >= 0, z3.RealVal(0), -INF)
        if nm == "positive":
            return z3.If(x > 0, z3.RealVal(0), -INF)
        if nm in ("uniform", "log_scale_uniform"):
            return z3.If(z3.And(x >= q[0], x <= q[1]), -fn_log(q[1] - q[0]), -INF)
        d = ((fn_log(x) if nm == "log_normal" else x) - q[0]) / q[1]
        if nm == "log_normal":
            return R(-0.5 * 1.8378770664093453) - fn_log(q[1]) - fn_log(x) - half * d * d
        g = -half * (LOG_2PI + 2 * fn_log(q[1]) + d * d)
        return g + LOG_2 if nm == "positive_gaussian" else g
    return f


def per_alt(name, fn, fk):
    for k in range(len(ALTS)):
        @spec("C19", MOD, fn, name="%s[%s]" % (name, ALTS[k]))
        def f(v, k=k):
            v.requires(holds(v, k))
            want = fk(v, k, payload(v.pre[0], k))
            for p in v.run():
                p.ensure("%s of the held %s prior" % (name, ALTS[k]),
                         near(p.ret, want) if p.ret.sort() == REAL else p.ret == want)


per_alt("container density", "pc_log_pdf", lambda v, k, q: d_logpdf(v)(k, q))
EPS = z3.RealVal(1) / z3.RealVal(2 ** 52)
per_alt("container lower bound", "pc_lb", lambda v, k, q: [-INF, -INF, z3.RealVal(0), EPS, None, None, -INF, -INF, z3.RealVal(0)][k]
        if k not in (4, 5) else q[0])
per_alt("container upper bound", "pc_ub", lambda v, k, q: {4: q[1] if q else 0, 5: q[1] if q else 0, 8: 10 * q[1] if q else 0}.get(k, INF))
per_alt("container log scale", "pc_log", lambda v, k, q: z3.BoolVal(k == 5))
per_alt("container fixed", "pc_fixed", lambda v, k, q: z3.BoolVal(k == 1))


@spec("C19", MOD, "pc_from_uniform")
def pc_from_uniform(v):
    for p in v.run():
        b = sorted(o for o in p.ret.d if isinstance(p.ret.d[o], Leaf))[0]
        p.ensure("holds a uniform prior", p.ret.d[b].e == len(ALTS) - 1 - 4)
        q = payload(Struct({o: x for o, x in p.ret.d.items() if isinstance(x, Leaf)}), 4)
        p.ensure("with the same bounds", z3.And(q[0] == F(v, 0), q[1] == F(v, 1)))


@spec("C19", MOD, "pc_assign_gaussian")
def pc_assign_gaussian(v):
    for p in v.run():
        b = sorted(o for o in p.ret.d if isinstance(p.ret.d[o], Leaf))[0]
        p.ensure("holds a gaussian prior", p.ret.d[b].e == len(ALTS) - 1 - 6)
        q = payload(Struct({o: x for o, x in p.ret.d.items() if isinstance(x, Leaf)}), 6)
        p.ensure("with the same mean and deviation", z3.And(q[0] == F(v, 0), q[1] == F(v, 1)))
