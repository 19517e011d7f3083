"""C11: block-diagonal operations equal the dense ones.  off(k) is the row at which block k starts."""
from speclib import *
from c10 import at, I_, J_
from c12 import iroot, DIAG, leafm, factor_of
from ring import SYM, D_, Ring, instances, ldlt_facts, meq
from contracts_async import FRESH as POOL
from smt import mmul, mtr, minv, mblock, msub
from c28 import tickets
import contracts_eigen as CE
import cxx

MOD = "blocks"
Z = z3.IntVal(0)
off = smt.uf("block_start", INT, INT)
K_, Q_, C_ = z3.Int("blk_k"), z3.Int("blk_q"), z3.Int("blk_c")
L__ = z3.Int("blk_l")


def part(rhs, k, b):
    """rows of rhs which block k acts on"""
    return mblock(rhs, off(k), Z, smt.rows(b), smt.cols(rhs))


def layout(v, n, b, off=off):
    """definition of off, and that blocks are disjoint and in order (proved by induction: lemma below)"""
    v.requires(off(Z) == 0)
    v.requires(forall(K_, implies(rng(K_, 0, n), z3.And(smt.rows(b(K_)) >= 0, smt.cols(b(K_)) == smt.rows(b(K_)), off(K_ + 1) == off(K_) + smt.rows(b(K_)))), b(K_)))
    v.requires(forall(K_, implies(z3.And(0 <= K_, K_ <= n), z3.And(0 <= off(K_), off(K_) <= off(n))), off(K_)))
    v.requires(forall([K_, L__], implies(z3.And(0 <= K_, K_ < L__, L__ <= n), z3.And(0 <= off(K_), off(K_) + smt.rows(b(K_)) <= off(L__))), z3.MultiPattern(b(K_), off(L__))))


@spec("C11", MOD, None, name="layout")
def layout_lemma(v):
    n, l = z3.Int("n"), z3.Int("l")
    b = smt.uf("the_blocks", INT, MAT)
    d = [off(Z) == 0, forall(K_, implies(rng(K_, 0, n), off(K_ + 1) == off(K_) + smt.rows(b(K_))), b(K_)), forall(K_, smt.rows(b(K_)) >= 0, b(K_))]
    claim = lambda l: forall(K_, implies(z3.And(0 <= K_, K_ < l), z3.And(0 <= off(K_), off(K_) + smt.rows(b(K_)) <= off(l))), [b(K_), off(K_)])
    v.ensure("start", d, claim(Z))
    h = d + [claim(l), 0 <= l, l < n, off(l) >= 0, smt.rows(b(l)) >= 0]
    v.ensure("next start", h, z3.And(off(l + 1) == off(l) + smt.rows(b(l)), off(l + 1) >= 0))
    v.ensure("step", h + [off(l + 1) == off(l) + smt.rows(b(l))], claim(l + 1))


def sums(n):
    """candidates: a sum so far is the start of the current block"""
    def f(ctx):
        out = []
        for a, g in ctx.ints():
            for b, h in ctx.of(Iter) + ctx.ints():
                if a == b:
                    continue
                pos = (lambda s, h=h: h(s).pos) if hasattr(h(ctx.entry), "pos") else h
                out.append(("%s starts block %s" % (a, b), lambda s, g=g, pos=pos: z3.And(0 <= pos(s), pos(s) <= n, g(s) == off(pos(s)))))
        return out
    return f


def filled(n, N, cols, X, b):
    """candidates: blocks so far hold X(k)"""
    def f(ctx):
        out = sums(n)(ctx)
        for mn, mg in ctx.mats():
            out.append(("shape of " + mn, lambda s, mg=mg: z3.And(smt.rows(mg(s).e) == N, smt.cols(mg(s).e) == cols)))
            for i, g in ctx.of(Iter) + ctx.ints():
                pos = (lambda s, g=g: g(s).pos) if hasattr(g(ctx.entry), "pos") else g
                out.append(("blocks of %s before %s" % (mn, i), lambda s, mg=mg, pos=pos: rows_are(mg(s).e, X, b, pos(s), cols)))
        return out
    return f


def rows_are(m, X, b, upto, cols):
    x = at(X(K_), Q_, C_)
    return forall([K_, Q_, C_], implies(z3.And(rng(K_, 0, upto), rng(Q_, 0, smt.rows(b(K_))), rng(C_, 0, cols)), at(m, off(K_) + Q_, C_) == x), x)


def blocks_of(v, k=0):
    u = v.pre[k].d[0] if hasattr(v.pre[k], "d") else v.pre[k]
    return u.n.e, (lambda j: sel(u.el, j).e)


def maps(ctx):
    """maps in reach of a loop"""
    out = list(ctx.of(Dict))
    for obj in ctx.ex.visible(ctx.entry):
        for o, d in ctx.entry.mem.get(obj, {}).items():
            if isinstance(d, Dict) and (obj, o) not in ctx.M:
                out.append(("%s.%s" % (obj, o), lambda s, d=d: d))
    return out


def by_key(N, cols, X, b, n):
    """candidates for a loop over the blocks in the order of a map: the blocks of the keys passed hold X(k)"""
    def f(ctx):
        out = sums(n)(ctx)
        for dn, dg in maps(ctx):
            d = dg(ctx.entry)
            out += tickets([lambda j: nth(d.dom.e, j), lambda j: z3.Select(d.val.e, nth(d.dom.e, j))], None)(ctx)
        for mn, mg in ctx.mats():
            out.append(("shape of " + mn, lambda s, mg=mg: z3.And(smt.rows(mg(s).e) == N, smt.cols(mg(s).e) == cols)))
            for dn, dg in maps(ctx):
                for i, g in ctx.of(Iter):
                    x = at(X(K_), Q_, C_)
                    out.append(("blocks of %s passed by %s in %s" % (mn, i, dn), lambda s, mg=mg, dg=dg, g=g, x=x: z3.And(g(s).pos >= 0, g(s).pos <= size(dg(s).dom.e), forall(
                        [K_, Q_, C_], implies(z3.And(z3.Select(dg(s).dom.e, K_), idx(dg(s).dom.e, K_) < g(s).pos, rng(Q_, 0, smt.rows(b(K_))), rng(C_, 0, cols)),
                                              at(mg(s).e, off(K_) + Q_, C_) == x), x))))
        return out
    return f


def starts(d, n):
    k = z3.Int("key")
    e = z3.Select(d.dom.e, k)
    return forall(k, z3.And(e == rng(k, 0, n), implies(e, z3.Select(d.val.e, k) == off(k))), [e, z3.Select(d.val.e, k)])


class Facts:
    def __init__(self, st):
        self.requires = st.assume


def rows_by_block(c):
    """contract proved in row_map"""
    r = c.ex.fresh(c.st, cxx.parse_type("std::map<unsigned long, long>"), "starts")
    u = c.ex.node_at(c.st, c.args[0])
    u = u.d[0] if hasattr(u, "d") else u
    saturate(Facts(c.st), r)
    c.st.assume(starts(r, u.n.e))
    return c.ret(r)


def acting(fn, value, pool=False, columns=False, **opts):
    if pool:
        opts = dict(opts, fresh=POOL, contracts=dict(opts.get("contracts", {}), **{"albatross::BlockDiagonalLDLT::block_to_row_map": rows_by_block}))

    @spec("C11", MOD, fn, **opts)
    def s(v):
        n, b = blocks_of(v)
        rhs = v.a(1)
        layout(v, n, b)
        v.requires(smt.rows(rhs) == off(n))
        if columns:
            i, m = v.a(2), v.a(3)
            v.requires(z3.And(i >= 0, m >= 0, i + m <= smt.cols(rhs)))
            rhs = mblock(rhs, Z, i, smt.rows(rhs), m)
        X = lambda k: value(b(k), part(rhs, k, b(k)))
        v.requires(forall(K_, implies(rng(K_, 0, n), z3.And(ldlt_facts(b(K_)))), b(K_)))
        v.template(by_key(off(n), smt.cols(rhs), X, b, n) if pool else filled(n, off(n), smt.cols(rhs), X, b))
        for p in v.run():
            p.ensure("shape", z3.And(smt.rows(p.ret) == off(n), smt.cols(p.ret) == smt.cols(rhs)))
            p.ensure("every block acts on its rows", rows_are(p.ret, X, b, n, smt.cols(rhs)))


INV = lambda F, r: mmul(minv(F), r)
ROOT = lambda F, r: mmul(iroot(F), r)


def sqrt_solve(c):
    """contract proved in C12"""
    F = factor_of(c)
    r = CE.val(c, 1)
    c.ex.oblige(c.st, "dimensions agree", smt.rows(r) == smt.rows(F), "pre")
    return c.ret(leafm(ROOT(F, r)))


SQ = {"Eigen::SerializableLDLT::sqrt_solve": sqrt_solve}
for fn in ("solve", "solve_vec"):
    acting(fn, INV)
for fn in ("sqrt_solve", "sqrt_solve_vec"):
    acting(fn, ROOT, contracts=SQ)
for fn in ("product", "product_vec"):
    acting(fn, mmul)
for fn in ("solve_pool", "solve_vec_pool"):
    acting(fn, INV, True)
for fn in ("sqrt_solve_pool", "sqrt_solve_vec_pool"):
    acting(fn, ROOT, True, contracts=SQ)
acting("solve_part", INV, columns=True)


def total(fn):
    @spec("C11", MOD, fn)
    def s(v):
        n, b = blocks_of(v)
        layout(v, n, b)
        v.template(sums(n))
        for p in v.run():
            p.ensure("sum of the sizes of the blocks", p.ret == off(n))


for fn in ("factor_rows", "factor_cols", "matrix_rows", "matrix_cols"):
    total(fn)


@spec("C11", MOD, "row_map")
def row_map(v):
    n, b = blocks_of(v)
    layout(v, n, b)
    k = z3.Int("key")

    def t(ctx):
        out = sums(n)(ctx)
        for dn, dg in ctx.of(Dict):
            for i, g in ctx.of(Iter) + ctx.ints():
                pos = (lambda s, g=g: g(s).pos) if hasattr(g(ctx.entry), "pos") else g
                out.append(("starts in %s below %s" % (dn, i), lambda s, dg=dg, pos=pos: starts(dg(s), pos(s))))
        return out
    v.template(t)
    for p in v.run():
        p.ensure("the start of every block", starts(p.ret, n))


def pairs(v):
    """two matrices of the same block sizes"""
    (n, a), (m, b) = blocks_of(v, 0), blocks_of(v, 1)
    layout(v, n, a)
    v.requires(m == n)
    v.requires(forall(K_, implies(rng(K_, 0, n), z3.And(smt.rows(b(K_)) == smt.rows(a(K_)), smt.cols(b(K_)) == smt.cols(a(K_)))), b(K_)))
    return n, a, b


def blockwise(fn, args, X, facts=lambda v: None):
    """candidates: the blocks so far are X(k)"""
    @spec("C11", MOD, fn)
    def s(v):
        n, a, b = args(v)

        def t(ctx):
            out = sums(n)(ctx)
            for dn, dg in ctx.of(Vec):
                e = sel(dg(ctx.entry).el, K_)
                if isinstance(e, Leaf) and e.kind == "mat":
                    for i, g in ctx.of(Iter) + ctx.ints():
                        pos = (lambda s, g=g: g(s).pos) if hasattr(g(ctx.entry), "pos") else g
                        out.append(("blocks of %s below %s" % (dn, i), lambda s, dg=dg, pos=pos: z3.And(dg(s).n.e == pos(s), blocks_are(dg(s), pos(s), X(a, b)))))
            return out
        v.template(t)
        for p in v.run():
            u = p.ret.d[0] if hasattr(p.ret, "d") else p.ret
            p.ensure("one block per block", u.n.e == n)
            p.ensure("every block", blocks_are(u, n, X(a, b)))


def blocks_are(u, n, x):
    e = sel(u.el, K_).e
    return forall(K_, implies(rng(K_, 0, n), e == x(K_)), e)


blockwise("minus", pairs, lambda a, b: lambda k: msub(a(k), b(k)))


def single(v):
    n, b = blocks_of(v)
    layout(v, n, b)
    return n, b, b


blockwise("ldlt", single, lambda a, b: lambda k: SYM(b(k)))


@spec("C11", MOD, "dense")
def dense(v):
    n, b = blocks_of(v)
    layout(v, n, b)
    N = off(n)
    l = z3.Int("blk_p")

    def is_dense(m, upto):
        """entries in the blocks so far, and zero elsewhere"""
        x = at(b(K_), Q_, l)
        y = at(m, off(K_) + Q_, C_)
        return z3.And(forall([K_, Q_, l], implies(z3.And(rng(K_, 0, upto), rng(Q_, 0, smt.rows(b(K_))), rng(l, 0, smt.rows(b(K_)))), at(m, off(K_) + Q_, off(K_) + l) == x), x),
                      forall([K_, I_, C_], implies(z3.And(rng(K_, 0, n), off(K_) <= I_, I_ < off(K_) + smt.rows(b(K_)), rng(C_, 0, N), z3.Or(K_ >= upto, C_ < off(K_), C_ >= off(K_) + smt.rows(b(K_)))),
                                                   at(m, I_, C_) == 0), z3.MultiPattern(b(K_), at(m, I_, C_))))

    def t(ctx):
        out = sums(n)(ctx)
        for mn, mg in ctx.mats():
            out.append(("shape of " + mn, lambda s, mg=mg: z3.And(smt.rows(mg(s).e) == N, smt.cols(mg(s).e) == N)))
            for i, g in ctx.of(Iter) + ctx.ints():
                pos = (lambda s, g=g: g(s).pos) if hasattr(g(ctx.entry), "pos") else g
                out.append(("blocks of %s before %s" % (mn, i), lambda s, mg=mg, pos=pos: is_dense(mg(s).e, pos(s))))
        return out
    v.template(t)
    for p in v.run():
        p.ensure("shape", z3.And(smt.rows(p.ret) == N, smt.cols(p.ret) == N))
        p.ensure("the dense matrix", is_dense(p.ret, n))


@spec("C11", MOD, "diagonal")
def diagonal(v):
    n, b = blocks_of(v)
    layout(v, n, b)
    v.template(filled(n, off(n), z3.IntVal(1), lambda k: smt.mdiag(b(k)), b))
    for p in v.run():
        p.ensure("shape", z3.And(smt.rows(p.ret) == off(n), smt.cols(p.ret) == 1))
        p.ensure("diagonal of every block", rows_are(p.ret, lambda k: smt.mdiag(b(k)), b, n, z3.IntVal(1)))


@spec("C11", MOD, "log_determinant")
def log_determinant(v):
    """sum of the log determinants of the blocks (that of a block is C12)"""
    n, b = blocks_of(v)
    layout(v, n, b)
    one = lambda k: smt.msum(smt.cwise("log")(D_(b(k))))
    total = fold(v, "log_det", REAL, z3.RealVal(0), lambda k, r: r + one(k))

    def t(ctx):
        return [("%s sums the blocks before %s" % (a, i), lambda s, g=g, h=h: g(s) == total(h(s).pos)) for a, g in ctx.reals() for i, h in ctx.of(Iter)]
    v.template(t)
    for p in v.run():
        p.ensure("sum over the blocks", p.ret == total(n))


@spec("C11", MOD, "adjoint")
def adjoint(v):
    """symmetric matrices are their own adjoint"""
    n, b = blocks_of(v)
    for p in v.run():
        u = p.ret.d[0] if hasattr(p.ret, "d") else p.ret
        p.ensure("the same blocks", z3.And(u.n.e == n, blocks_are(u, n, b)))


@spec("C11", MOD, None, name="dense product")
def dense_product(v):
    """row q of block k of the product of the dense matrix is that of the product of block k: both are sums over the columns"""
    o, m, j = z3.Ints("block_from block_size col")
    D, b, r = z3.Function("dense_row", INT, REAL), z3.Function("block_row", INT, REAL), z3.Function("rhs_column", INT, REAL)
    dd, db = z3.Function("dense_sum", INT, REAL), z3.Function("block_sum", INT, REAL)
    i = z3.Int("sum_i")
    defs = [dd(Z) == 0, db(Z) == 0, m >= 0, o >= 0,
            forall(i, D(i) == z3.If(z3.And(o <= i, i < o + m), b(i - o), z3.RealVal(0)), D(i))]
    claim = lambda j: dd(j) == z3.If(j <= o, z3.RealVal(0), z3.If(j <= o + m, db(j - o), db(m)))
    v.ensure("no columns", defs, claim(Z))
    v.ensure("one more column", defs + [j >= 0, claim(j), dd(j + 1) == dd(j) + D(j) * r(j), implies(z3.And(j >= o, j < o + m), db(j + 1 - o) == db(j - o) + b(j - o) * r(j))], claim(j + 1))
    v.ensure("all columns", defs + [j >= o + m, claim(j)], dd(j) == db(m))


@spec("C11", MOD, None, name="dense solve")
def dense_solve(v):
    """with the above, blockwise solutions solve the dense system and blockwise roots whiten it"""
    B, r = z3.Const("one_block", MAT), z3.Const("its_rhs", MAT)
    R = Ring()
    R.factored(B)
    hyps = [smt.rows(B) == smt.cols(B), smt.rows(r) == smt.rows(B)] + ldlt_facts(B)
    for n, a, w in (("block of the product with the solution", mmul(B, INV(B, r)), r),
                    ("block of the product of the roots", mmul(mtr(iroot(B)), ROOT(B, r)), INV(B, r))):
        g = meq(a, w)
        v.ensure(n, hyps + instances(R, [g]) + R.fact(w), g)
