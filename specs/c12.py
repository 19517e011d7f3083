"""C12: the square-root algebra of the factorisation reproduces the factored matrix."""
from speclib import *
from c10 import mat_is, vec_eq, at, I_, J_
from ring import L_, D_, P_, SD_, ID_, QM_, QP_, Ring, instances, ldlt_facts, meq
from contracts_async import FRESH as FRESH_POOL
import cxx
from smt import mmul, mtr, minv, mdiagm, mid, mdiag, mblock
import contracts_eigen as CE
from exec import MAXLEN

MOD = "ldlt"
Z = z3.IntVal(0)


def leafm(e):
    return Leaf("mat", e)


def factor_of(c):
    return CE.nodeval(c, CE.raw(c, c.args[0]))


def with_facts(f):
    def h(c):
        F = factor_of(c)
        for x in ldlt_facts(F):
            c.st.assume(x)
        return c.ret(leafm(f(F)))
    return h


DIAG = {"Eigen::SerializableLDLT::diagonal_sqrt": with_facts(SD_), "Eigen::SerializableLDLT::diagonal_sqrt_inverse": with_facts(ID_)}


def root(F):
    """P' L D^1/2"""
    return mmul(mtr(P_(F)), mmul(L_(F), mdiagm(SD_(F))))


def iroot(F):
    """D^-1/2 L^-1 P"""
    return mmul(mdiagm(ID_(F)), mmul(minv(L_(F)), P_(F)))


def entrywise(fn, f):
    @spec("C12", MOD, fn)
    def g(v):
        F = v.a(0)
        for x in ldlt_facts(F):
            v.requires(x)
        d = lambda i: at(D_(F), i)

        def done(ctx):
            out = []
            for mn, mg in ctx.mats():
                e = lambda s, i, mg=mg: smt.at(mg(s).e, i, Z)
                out.append(("size of " + mn, lambda s, mg=mg: z3.And(smt.rows(mg(s).e) == smt.rows(F), smt.cols(mg(s).e) == 1)))
                for n, q in ctx.ints():
                    out.append(("%s done below %s" % (mn, n), lambda s, e=e, q=q: forall(I_, implies(rng(I_, 0, smt.rows(F)),
                                e(s, I_) == z3.If(I_ < q(s), f(d(I_)), d(I_))), e(s, I_))))
                    out.append(("%s done from %s" % (mn, n), lambda s, e=e, q=q: forall(I_, implies(rng(I_, 0, smt.rows(F)),
                                e(s, I_) == z3.If(I_ >= q(s), f(d(I_)), d(I_))), e(s, I_))))
            return out
        v.template(done)
        for p in v.run():
            p.ensure("entries", vec_eq(p.ret, smt.rows(F), lambda i: f(d(i))))


entrywise("diagonal_sqrt", lambda x: z3.If(x > 0, smt.fn_sqrt(x), z3.RealVal(0)))
entrywise("diagonal_sqrt_inverse", lambda x: z3.If(x > 0, 1 / smt.fn_sqrt(x), z3.RealVal(0)))


def operation(fn, want, arg=True):
    @spec("C12", MOD, fn, contracts=DIAG)
    def g(v):
        F = v.a(0)
        for x in ldlt_facts(F):
            v.requires(x)
        if arg:
            v.requires(smt.rows(v.a(1)) == smt.rows(F))
        w = want(F, v.a(1)) if arg else want(F)
        for p in v.run():
            p.algebra("value", Ring(), meq(p.ret, w))


operation("sqrt_product", lambda F, b: mmul(root(F), b))
operation("sqrt_solve", lambda F, b: mmul(iroot(F), b))
operation("sqrt_solve_vec", lambda F, b: mmul(iroot(F), b))
operation("sqrt_transpose", lambda F: mtr(root(F)), arg=False)
operation("sqrt_transpose_solve", lambda F, b: mmul(mtr(iroot(F)), b))
operation("sqrt_transpose_solve_vec", lambda F, b: mmul(mtr(iroot(F)), b))


@spec("C12", MOD, None, name="algebra")
def algebra(v):
    """A = P' L D L' P with D > 0: the roots multiply to A and its inverse"""
    A = z3.Const("A", MAT)
    R = Ring()
    R.factored(A)
    hyps = [smt.rows(A) == smt.cols(A)] + ldlt_facts(A)
    for n, a, b in (("root times its transpose is the matrix", mmul(root(A), mtr(root(A))), A),
                    ("transposed inverse root times inverse root is the inverse", mmul(mtr(iroot(A)), iroot(A)), minv(A)),
                    ("inverse root whitens the matrix", mmul(iroot(A), mmul(A, mtr(iroot(A)))), mid(smt.rows(A), smt.rows(A))),
                    ("inverse root times root", mmul(iroot(A), root(A)), mid(smt.rows(A), smt.rows(A)))):
        goal = meq(a, b)
        v.ensure(n, hyps + instances(R, [goal]) + R.fact(b), goal)


def subset_cols(c):
    """contract proved for the gather in C08"""
    A = CE.val(c, 0)
    ix = c.ex.node_at(c.st, c.args[1])
    j = z3.Int(fresh_name("sj"))
    c.ex.oblige(c.st, "column indices in range", forall(J, implies(rng(J, 0, ix.n.e), rng(sel(ix.el, J).e, 0, smt.cols(A))), sel(ix.el, J).e), "pre")
    return c.ret(leafm(smt.mgcols(A, ix.el.e, ix.n.e)))


SUB = dict(DIAG, **{"albatross::subset_cols": subset_cols})


def grams(b):
    """the blocks done so far are products of the listed columns of some matrix with themselves"""
    def t(ctx):
        out = []
        for dn, dg in ctx.of(Vec):
            for mn, mm in ctx.constant_mats():
                for n, g in ctx.ints():
                    def inv(s, dg=dg, mm=mm, g=g):
                        v = dg(s)
                        e = sel(v.el, J)
                        if not (isinstance(e, Leaf) and e.kind == "mat"):
                            return z3.BoolVal(True)
                        return z3.And(forall(J, implies(rng(J, 0, g(s)), is_gram(e.e, mm, sel(b.el, J))), e.e))
                    out.append(("grams of %s in %s below %s" % (mn, dn, n), inv))
        return out
    return t


def is_gram(m, T, ix):
    sub = smt.mgcols(T, ix.el.e, ix.n.e)
    return m == mmul(mtr(sub), sub)


def block_of(m, W, ix):
    """m holds the entries of W at the listed rows and columns"""
    i = lambda k: sel(ix.el, k).e
    return mat_is(m, ix.n.e, ix.n.e, lambda a, b: smt.at(W, i(a), i(b)))


def inverse_blocks_spec(fn, **opts):
    @spec("C12", MOD, fn, contracts=SUB, **opts)
    def g(v):
        F, b = v.a(0), v.pre[1]
        R = Ring()
        R.factored(F)
        for x in ldlt_facts(F):
            v.requires(x)
        ix = sel(b.el, J_)
        v.requires(forall(J_, implies(rng(J_, 0, b.n.e), z3.And(ix.n.e >= 0, ix.n.e < MAXLEN)), ix.n.e))
        v.requires(forall([J_, J], implies(z3.And(rng(J_, 0, b.n.e), rng(J, 0, ix.n.e)), rng(sel(ix.el, J).e, 0, smt.rows(F))), sel(ix.el, J).e))
        v.template(grams(b))
        k = z3.Int("block_k")
        for p in v.run():
            e = sel(p.ret.el, k).e
            p.ensure("one block per list", p.ret.n.e == b.n.e)
            p.assume(z3.And(R.fact(minv(F))))
            p.algebra("block of the inverse", R, implies(rng(k, 0, b.n.e), block_of(e, minv(F), sel(b.el, k))))


inverse_blocks_spec("inverse_blocks")
inverse_blocks_spec("inverse_blocks_pool", fresh=FRESH_POOL)


def inverse_blocks(c):
    """contract proved above"""
    ex, st = c.ex, c.st
    F = factor_of(c)
    b = ex.node_at(st, c.args[1])
    ix = sel(b.el, J_)
    ex.oblige(st, "block indices in range", forall([J_, J], implies(z3.And(rng(J_, 0, b.n.e), rng(J, 0, ix.n.e)), rng(sel(ix.el, J).e, 0, smt.rows(F))), sel(ix.el, J).e), "pre")
    r = ex.fresh(st, cxx.parse_type("std::vector<Eigen::Matrix<double, -1, -1>>"), "blocks")
    e = sel(r.el, J)
    st.assume(r.n.e == b.n.e)
    st.assume(forall(J, implies(rng(J, 0, b.n.e), block_of(e.e, minv(F), sel(b.el, J))), e.e))
    return c.ret(r)


@spec("C12", MOD, "inverse_diagonal", contracts={"Eigen::SerializableLDLT::inverse_blocks": inverse_blocks})
def inverse_diagonal(v):
    F = v.a(0)

    def singles(ctx):
        out = []
        for dn, dg in ctx.of(Vec):
            for n, g in ctx.ints():
                def inv(s, dg=dg, g=g):
                    u = dg(s)
                    e = sel(u.el, J)
                    if not isinstance(e, Vec) or not isinstance(e.el, Leaf):
                        return z3.BoolVal(True)
                    return forall(J, implies(rng(J, 0, g(s)), z3.And(e.n.e == 1, sel(e.el, Z).e == J)), [e.n.e, sel(e.el, Z).e])
                out.append(("singletons in %s below %s" % (dn, n), inv))
        for mn, mg in ctx.mats():
            x = lambda s, mg=mg: smt.at(mg(s).e, I_, Z)
            for n, g in ctx.ints():
                out.append(("diagonal in %s below %s" % (mn, n), lambda s, x=x, g=g: forall(I_, implies(rng(I_, 0, g(s)), x(s) == smt.at(minv(F), I_, I_)), x(s))))
            out.append(("shape of " + mn, lambda s, mg=mg: z3.And(smt.rows(mg(s).e) == smt.rows(F), smt.cols(mg(s).e) == 1)))
        return out
    v.template(singles)
    for p in v.run():
        p.ensure("diagonal of the inverse", vec_eq(p.ret, smt.rows(F), lambda i: smt.at(minv(F), i, i)))


@spec("C12", MOD, "log_determinant")
def log_determinant(v):
    F = v.a(0)
    for p in v.run():
        p.ensure("sum of the logs of the diagonal", p.ret == smt.msum(smt.cwise("log")(D_(F))))


@spec("C12", MOD, "positive_definite")
def positive_definite(v):
    F = v.a(0)
    for x in ldlt_facts(F):
        v.requires(x)
    v.requires(smt.rows(F) > 0)
    d = smt.at(D_(F), I_, Z)
    for p in v.run():
        p.ensure("every entry of D is positive", p.ret == forall(I_, implies(rng(I_, 0, smt.rows(F)), d > 0), d))


@spec("C12", MOD, "rebuild")
def rebuild(v):
    A, b = v.a(0), v.a(1)
    v.requires(z3.And(smt.rows(A) == smt.cols(A), smt.rows(b) == smt.rows(A)))
    v.requires(forall([I_, J_], implies(z3.And(rng(I_, 0, smt.rows(A)), rng(J_, 0, smt.rows(A))), smt.at(A, I_, J_) == smt.at(A, J_, I_)), smt.at(A, I_, J_)))
    R = Ring()
    for p in v.run():
        p.algebra("solves the system of the matrix it was built from", R, meq(mmul(A, p.ret), b))


def tall(A):
    return smt.rows(A) >= smt.cols(A)


@spec("C12", MOD, "get_r")
def get_r(v):
    A = v.a(0)
    v.requires(tall(A))
    n = smt.cols(A)
    for p in v.run():
        p.ensure("upper triangle of the leading rows", mat_is(p.ret, n, n, lambda i, j: z3.If(i <= j, smt.at(QM_(A), i, j), z3.RealVal(0))))


def get_R(c):
    A = factor_of(c)
    n = smt.cols(A)
    R = QR_(A)
    x = smt.at(R, I_, J_)
    c.st.assume(z3.And(smt.rows(R) == n, smt.cols(R) == n, forall([I_, J_], implies(z3.And(0 <= J_, J_ < I_, I_ < n), x == 0), x)))
    return c.ret(leafm(R))


QR_ = smt.uf("qr_R", MAT, MAT)


@spec("C12", MOD, "qr_sqrt_solve", contracts={"albatross::get_R": get_R})
def qr_sqrt_solve(v):
    """R'^-1 P' b, so that its square is (A'A)^-1 as A P = Q R"""
    A, b = v.a(0), v.a(1)
    v.requires(z3.And(tall(A), smt.rows(b) == smt.cols(A)))
    for p in v.run():
        R = Ring()
        T = smt.mtri(QR_(A), z3.IntVal(2))
        p.ensure("the factor is triangular", meq(T, QR_(A)))
        R.same(T, QR_(A))
        p.algebra("value", R, meq(p.ret, mmul(minv(mtr(QR_(A))), mmul(mtr(QP_(A)), b))))
