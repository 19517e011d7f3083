"""C05: composed covariance functions are the pointwise sum, product and linear map."""
from contracts_variant import slot
from speclib import *
from c10 import mat_is, vec_eq, at, I_, J_

MOD = "covariances"
U = lambda n: smt.uf("vpx::" + n, INT, INT, REAL)
a, ay, b, c = U("a"), U("ay"), U("b"), U("c")
m_ = smt.uf("vpx::m", INT, REAL)
w_ = smt.uf("vpx::w", INT, REAL)


def val(n):
    """the number inside a feature"""
    while isinstance(n, Struct):
        n = n.d[0]
    return n.e


def scalar(fn, want):
    @spec("C05", MOD, fn)
    def f(v):
        x, y = val(v.pre[1]), val(v.pre[2])
        for p in v.run():
            p.ensure("value of the composition", p.ret == want(x, y))


for fn, want in (
        ("sum_both", lambda x, y: a(x, y) + b(x, y)), ("sum_left", ay), ("sum_left_swapped", lambda x, y: ay(y, x)),
        ("sum_right", ay), ("sum_right_swapped", lambda x, y: ay(y, x)), ("sum_other", c),
        ("product_both", lambda x, y: a(x, y) * b(x, y)), ("product_left", ay), ("product_right", ay),
        ("product_right_swapped", lambda x, y: ay(y, x)), ("nested", lambda x, y: (a(x, y) + b(x, y)) * b(x, y)), ("nested_left", ay),
        ("meas_both", lambda x, y: a(x, y) + b(x, y)), ("meas_left", a), ("meas_right", a), ("meas_none", a), ("meas_cross", ay),
        ("meas_only", b), ("meas_only_left", lambda x, y: z3.RealVal(0)), ("meas_only_right", lambda x, y: z3.RealVal(0)),
        ("meas_only_none", lambda x, y: z3.RealVal(0)), ("meas_product", lambda x, y: a(x, y) * b(x, y)),
        ("meas_product_none", lambda x, y: z3.RealVal(0))):
    scalar(fn, want)


# ------------------------------------------------------------------ linear combinations
def lin(v, n):
    """values and coefficients of a linear combination of matching sizes"""
    while 0 in n.d and isinstance(n.d[0], Struct):
        n = n.d[0]
    vals, co = n.d[0], n.d[24].e
    v.requires(z3.And(smt.rows(co) == vals.n.e, smt.cols(co) == 1))
    return vals, co


el = lambda n, j: val(sel(n.el, j))


def weighted(fn, which, term):
    """sum of coefficient times covariance with one side a linear combination"""
    @spec("C05", MOD, fn)
    def f(v):
        vals, co = lin(v, v.pre[which])
        o = val(v.pre[3 - which]) if len(v.pre) > 2 else None
        F = fold(v, "weighted sum", REAL, z3.RealVal(0), lambda i, r: r + at(co, i, z3.IntVal(0)) * term(el(vals, i), o))

        def t(ctx):
            return [("%s is the sum up to %s" % (rn, n), lambda s, r=r, g=g: r(s) == F(g(s))) for rn, r in ctx.reals() for n, g in ctx.ints()]
        v.template(t)
        for p in v.run():
            p.ensure("weighted sum of the covariances", p.ret == F(vals.n.e))


weighted("lin_right", 2, lambda y, x: a(x, y) + b(x, y))
weighted("lin_left", 1, lambda x, y: a(x, y) + b(x, y))
weighted("lin_cross_scalar", 1, lambda y, x: ay(x, y))
weighted("lin_meas", 2, lambda y, x: a(x, y))
weighted("lin_mean", 1, lambda x, o: m_(x))


def products(e, out):
    """matrices multiplied somewhere in the term"""
    if z3.is_app(e):
        if e.decl().name() == "mmul":
            out.append(e.arg(0))
        for x in e.children():
            products(x, out)
    return out


def double_sum(fn, k):
    @spec("C05", MOD, fn)
    def f(v):
        (xs, cx), (ys, cy) = lin(v, v.pre[1]), lin(v, v.pre[2])
        e = lambda i, j: k(el(xs, i), el(ys, j))
        import c04
        v.template(c04.shapes(xs.n.e, ys.n.e, c04.serial, e))
        K = z3.Const("K", smt.MAT)          # the matrix of covariances
        v.requires(mat_is(K, xs.n.e, ys.n.e, e))
        for p in v.run():
            ms = products(p.ret, [])
            for q in ms:                    # equal shape and entries: the same matrix
                i, j = z3.Ints(fresh_name("ei") + " " + fresh_name("ej"))
                p.assume(z3.Or(q == K, smt.rows(q) != smt.rows(K), smt.cols(q) != smt.cols(K), z3.And(0 <= i, i < smt.rows(K), 0 <= j, j < smt.cols(K), at(q, i, j) != at(K, i, j))))
            p.ensure("doubly weighted sum of the covariances", p.ret == smt.mdot(cx, smt.mmul(K, cy)))


double_sum("lin_both", lambda x, y: a(x, y) + b(x, y))
double_sum("lin_cross", lambda x, y: ay(y, x))


# ------------------------------------------------------------------ variants
def alts(n, k=2):
    """[(holds alternative, its number)] of a variant of k alternatives"""
    return [(n.d[0].e == k - 1 - i, n.d[slot(i)].e) for i in range(k)]


def on_variants(fn, table):
    """table: value per pair of alternatives (None: the argument is not a variant)"""
    @spec("C05", MOD, fn)
    def f(v):
        for k in (a, b, c):                 # covariance functions of two features of the same type are symmetric
            i, j = z3.Ints("si sj")
            v.requires(forall([i, j], k(i, j) == k(j, i), k(i, j)))
        xs = [alts(n) if isinstance(n, Struct) and slot(0) in n.d else [(z3.BoolVal(True), val(n))] for n in v.pre[1:]]
        for p in v.run():
            if len(xs) == 1:
                p.ensure("value for the alternative held", z3.And([implies(c1, p.ret == table[i](x)) for i, (c1, x) in enumerate(xs[0])]))
                continue
            p.ensure("value for the alternatives held", z3.And([implies(z3.And(c1, c2), p.ret == table[i][j](x, y))
                     for i, (c1, x) in enumerate(xs[0]) for j, (c2, y) in enumerate(xs[1])]))


zero = lambda x, y: z3.RealVal(0)
on_variants("var_right", [[a, ay]])
on_variants("var_left", [[a], [lambda y, x: ay(x, y)]])
on_variants("var_both", [[a, ay], [lambda y, x: ay(x, y), c]])
on_variants("var_sum", [[b, zero], [zero, c]])
on_variants("var_meas", [[lambda x, y: a(x, y) + b(x, y), ay], [lambda y, x: ay(x, y), c]])
on_variants("var_mean", [m_, lambda x: z3.RealVal(0)])
on_variants("var_mean2", [m_, w_])


@spec("C05", MOD, "meas_mean")
def meas_mean(v):
    for p in v.run():
        p.ensure("mean of the measured feature", p.ret == m_(val(v.pre[1])))


@spec("C05", MOD, "var_lin")
def var_lin(v):
    (vals, co), x = lin(v, v.pre[1]), val(v.pre[2])
    i, j = z3.Ints("si sj")
    v.requires(forall([i, j], b(i, j) == b(j, i), b(i, j)))

    def term(i):
        (c1, y), (c2, _) = alts(sel(vals.el, i))
        return z3.If(c1, b(y, x), z3.RealVal(0))
    v.requires(forall(J, rng(sel(vals.el, J).d[0].e, 0, 2), sel(vals.el, J).d[0].e))
    F = fold(v, "weighted sum", REAL, z3.RealVal(0), lambda i, r: r + at(co, i, z3.IntVal(0)) * term(i))
    v.template(lambda ctx: [("%s is the sum up to %s" % (rn, n), lambda s, r=r, g=g: r(s) == F(g(s))) for rn, r in ctx.reals() for n, g in ctx.ints()])
    for p in v.run():
        p.ensure("weighted sum over the alternatives held", p.ret == F(vals.n.e))


@spec("C05", MOD, "measured")
def measured(v):
    xs = v.pre[0]
    v.template(vec_prefix(lambda j: sel(xs.el, j)))
    for p in v.run():
        p.ensure("every feature wrapped, in order", vec_is(p.ret, xs.n.e, lambda j: sel(xs.el, j)))


@spec("C05", MOD, "noise")
def noise(v):
    sigma = field(v.pre[0], "sigma_independent_noise.value")
    x, y = v.a(1), v.a(2)
    for p in v.run():
        p.ensure("variance for equal observations, nothing otherwise", p.ret == z3.If(x == y, sigma * sigma, z3.RealVal(0)))


def field(n, name):
    """the real-valued member of that name"""
    for x in leaves(n):
        if z3.is_real(x.e) and name in str(x.e):
            return x.e
    raise KeyError(name)


def combination(fn, n_of, value, weight):
    @spec("C05", MOD, fn)
    def f(v):
        n = n_of(v)
        for p in v.run():
            vals, co = p.ret.d[0], p.ret.d[24].e
            p.ensure("features in order", vec_is(vals, n, lambda j: value(v, j)))
            p.ensure("weights", mat_is(co, n, z3.IntVal(1), lambda i, j: weight(v, i)))


two = lambda v: z3.IntVal(2)
pick = lambda v, j: v.pre[0] if z3.is_int_value(j) and j.as_long() == 0 else Struct({0: Leaf("i32", z3.If(j == 0, val(v.pre[0]), val(v.pre[1])))}, None)
combination("lin_sum", two, pick, lambda v, i: z3.RealVal(1))
combination("lin_difference", two, pick, lambda v, i: z3.If(i == 0, z3.RealVal(1), z3.RealVal(-1)))
combination("lin_mean_of", lambda v: v.pre[0].n.e, lambda v, j: sel(v.pre[0].el, j), lambda v, i: 1 / z3.ToReal(v.pre[0].n.e))
combination("lin_ones", lambda v: v.pre[0].n.e, lambda v, j: sel(v.pre[0].el, j), lambda v, i: z3.RealVal(1))
combination("lin_single", lambda v: z3.IntVal(1), lambda v, j: v.pre[0], lambda v, i: z3.RealVal(1))


@spec("C05", MOD, "lin_given")
def lin_given(v):
    xs, w = v.pre[0], v.pre[1].e
    v.requires(z3.And(smt.rows(w) == xs.n.e, smt.cols(w) == 1))
    for p in v.run():
        p.ensure("features in order", vec_is(p.ret.d[0], xs.n.e, lambda j: sel(xs.el, j)))
        p.ensure("weights", mat_is(p.ret.d[24].e, xs.n.e, z3.IntVal(1), lambda i, j: at(w, i, z3.IntVal(0))))


def mixed(fn, second):
    @spec("C05", MOD, fn)
    def f(v):
        for p in v.run():
            vals, co = p.ret.d[0], p.ret.d[24].e
            e0, e1 = sel(vals.el, z3.IntVal(0)), sel(vals.el, z3.IntVal(1))
            p.ensure("both features, in order", z3.And(vals.n.e == 2, alts(e0)[0][0], alts(e0)[0][1] == val(v.pre[0]), alts(e1)[1][0], alts(e1)[1][1] == val(v.pre[1])))
            p.ensure("weights", mat_is(co, z3.IntVal(2), z3.IntVal(1), lambda i, j: z3.If(i == 0, z3.RealVal(1), z3.RealVal(second))))


mixed("lin_sum_mixed", 1)
mixed("lin_difference_mixed", -1)
