"""C21: vector helpers and index casts."""
from speclib import *

MOD = "vectors"


def cast(fn, sort, pre):
    @spec("C21", MOD, fn)
    def f(v):
        x = v.a(0)
        v.ex.allow_throw = True
        for p in v.run():
            p.ensure("value preserved", p.ret == (z3.ToReal(x) if sort == REAL else x))
            p.ensure("rejected when not representable", pre(x))
    return f


cast("to_size", INT, lambda x: x >= 0)
cast("to_index", INT, lambda x: z3.And(x >= 0, x < 2 ** 63))
cast("dbl_size", REAL, lambda x: z3.And(x >= 0, x <= 2 ** 53))
cast("dbl_index", REAL, lambda x: z3.And(x >= -2 ** 53, x <= 2 ** 53))


def total(fn, pre, sort):
    """no representable value is rejected"""
    @spec("C21", MOD, fn, name=fn + "[accepts]")
    def f(v):
        v.requires(pre(v.a(0)))
        for p in v.run():
            p.ensure("accepted and preserved", p.ret == (z3.ToReal(v.a(0)) if sort == REAL else v.a(0)))
    return f


total("to_size", lambda x: x >= 0, INT)
total("to_index", lambda x: z3.And(x >= 0, x < 2 ** 63), INT)
total("dbl_size", lambda x: z3.And(x >= 0, x <= 2 ** 53), REAL)
total("dbl_index", lambda x: z3.And(x >= -2 ** 53, x <= 2 ** 53), REAL)


@spec("C21", MOD, "safe_cast")
def safe_cast(v):
    x = v.a(0)
    v.ex.allow_throw = True
    for p in v.run():
        p.ensure("integral part", z3.And(p.ret == z3.ToInt(x)))
        p.ensure("rejected when not representable", z3.And(x > -1, x < 2 ** 64))


@spec("C21", MOD, "lin")
def lin(v):
    a, b, n = v.a(0), v.a(1), v.a(2)
    v.requires(z3.And(n >= 0, n <= 2 ** 40))
    step = (b - a) / (z3.ToReal(n) - 1)
    d = z3.ToReal

    def t(ctx):
        out = []
        for rn, rg in ctx.reals():
            for pn, pg in list(ctx.ints()) + [(q, (lambda s, h=h: h(s).pos)) for q, h in ctx.of(Iter)]:
                out.append(("running value %s %s" % (rn, pn), lambda s, rg=rg, pg=pg: rg(s) == a + d(pg(s)) * step))
        for vn, vg in ctx.of(Vec):
            for pn, pg in list(ctx.ints()) + [(q, (lambda s, h=h: h(s).pos)) for q, h in ctx.of(Iter)]:
                def f(s, vg=vg, pg=pg):
                    x = vg(s)
                    return z3.And(x.n.e == n, forall(J, implies(rng(J, 0, pg(s)), z3.Select(x.el.e, J) == a + d(J) * step), z3.Select(x.el.e, J)))
                out.append(("filled %s %s" % (vn, pn), f))
        return out
    v.template(t)
    for p in v.run():
        p.ensure("requested number of points", p.ret.n.e == n)
        e = p.ret.el.e
        p.ensure("evenly spaced", implies(n >= 2, forall(J, implies(rng(J, 0, n), z3.Select(e, J) == a + d(J) * step))))
        p.ensure("starts at the first bound", implies(n >= 1, z3.Select(e, 0) == a))
        p.ensure("ends at the second bound", implies(n >= 2, z3.Select(e, n - 1) == b))


def boolscan(fn, goal):
    @spec("C21", MOD, fn)
    def f(v):
        x = v.pre[0]
        n = x.n.e
        el = lambda j: z3.Select(x.el.e, j)

        def t(ctx):
            out = []
            for pn, pg in list(ctx.ints()) + [(q, (lambda s, h=h: h(s).pos)) for q, h in ctx.of(Iter)]:
                out.append(("undecided so far " + pn, lambda s, pg=pg: z3.And(pg(s) >= 0, pg(s) <= n, forall(J, implies(rng(J, 0, pg(s)), el(J) == goal), el(J)))))
            return out
        v.template(t)
        every = forall(J, implies(rng(J, 0, n), el(J) == goal), el(J))
        for p in v.run():
            p.ensure("true exactly when it holds", p.ret == (every if fn == "all_of" else z3.Not(every)))
    return f


boolscan("all_of", z3.BoolVal(True))
boolscan("any_of", z3.BoolVal(False))


def contains(fn):
    @spec("C21", MOD, fn)
    def f(v):
        x = v.pre[0]
        for p in v.run():
            p.ensure("true exactly when some element equals it",
                     p.ret == z3.Exists([J], z3.And(rng(J, 0, x.n.e), z3.Select(x.el.e, J) == v.a(1))))
    return f


contains("contains_int")
contains("contains_str")
