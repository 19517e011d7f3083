"""C02: updating a Gaussian process fit equals conditioning on all data; block-partitioned solves are exact."""
from speclib import *
from c10 import mat_is, vec_eq, at, I_, J_, mean, cov, valid_marginal, valid_joint
from c01 import (CALLS, MOD, k_, km_, n_, m_, mm_, el, converted, filled, mat_const, symmetric, fields, quad, posterior, against, dataset, leafm)
from ring import SYM, Ring, instances, ldlt_facts, meq
from ring import align as ring_align
from smt import mmul, mtr, minv, madd, msub, mblock
import contracts_eigen as CE

Z = z3.IntVal(0)


def blocks(n):
    """A, A^-1 B and S of a block symmetric matrix"""
    return [n.d[k].e for k in sorted(n.d)]


def solution(A, AiB, S, ra, rb):
    """solution of the partitioned system"""
    t = msub(mmul(minv(S), mmul(mtr(AiB), ra)), mmul(minv(S), rb))
    return madd(mmul(minv(A), ra), mmul(AiB, t)), msub(mmul(minv(S), rb), mmul(minv(S), mmul(mtr(AiB), ra)))


def factors(v, *fs):
    R = Ring()
    for F in fs:
        for x in ldlt_facts(F):
            v.requires(x)
    R.symmetric(*fs)
    return R


def split(n, AA, BB, rhs):
    na, nb = smt.rows(AA), smt.rows(BB)
    return mblock(rhs, Z, Z, na, smt.cols(rhs)), mblock(rhs, na, Z, nb, smt.cols(rhs))


def stacked(M, a, b):
    na = smt.rows(a)
    return mat_is(M, na + smt.rows(b), smt.cols(a), lambda i, j: z3.If(i < na, at(a, i, j), at(b, i - na, j)))


def solve(fn):
    @spec("C02", MOD, fn)
    def s(v):
        A, AiB, S = blocks(v.pre[0])
        rhs = v.a(1)
        R = factors(v, A, S)
        v.requires(z3.And(smt.rows(AiB) == smt.rows(A), smt.cols(AiB) == smt.rows(S), smt.rows(rhs) == smt.rows(A) + smt.rows(S)))
        ra, rb = split(0, A, S, rhs)
        x, y = solution(A, AiB, S, ra, rb)
        for p in v.run():
            ring_align(p, R, {"upper right hand side": ra, "lower right hand side": rb}, [p.ret])
            p.algebra("solution of the partitioned system", R, stacked(p.ret, x, y))


solve("block_solve")
solve("block_solve_vec")


@spec("C02", MOD, None, name="partitioned system")
def system(v):
    """the solution above solves [[A,B],[B',C]] x = rhs when S is the Schur complement"""
    A, B, C, S, ra, rb = (z3.Const("blk_" + n, MAT) for n in ("A", "B", "C", "S", "ra", "rb"))
    n, m = smt.rows(A), smt.rows(C)
    R = Ring()
    R.symmetric(A, S)
    R.define(C, madd(S, mmul(mtr(B), mmul(minv(A), B))))
    x, y = solution(A, mmul(minv(A), B), S, ra, rb)
    hyps = [smt.cols(A) == n, smt.cols(C) == m, smt.rows(B) == n, smt.cols(B) == m, smt.rows(S) == m, smt.cols(S) == m, smt.rows(ra) == n,
            smt.rows(rb) == m, smt.cols(ra) == smt.cols(rb)]
    for nm, a, b in (("upper equations", madd(mmul(A, x), mmul(B, y)), ra), ("lower equations", madd(mmul(mtr(B), x), mmul(C, y)), rb)):
        g = meq(a, b)
        v.ensure(nm, hyps + instances(R, [g]), g)


def build(fn, dense):
    @spec("C02", MOD, fn)
    def s(v):
        A, B, C = v.a(0), v.a(1), v.a(2)
        R = factors(v, A)
        n, m = smt.rows(A), smt.cols(B)
        v.requires(z3.And(smt.rows(B) == n, smt.rows(C) == m, smt.cols(C) == m))
        if dense:
            v.requires(forall([I_, J_], implies(z3.And(rng(I_, 0, m), rng(J_, 0, m)), at(C, I_, J_) == at(C, J_, I_)), at(C, I_, J_)))
        for p in v.run():
            A2, AiB, S = blocks(p.ret)
            p.ensure("A is kept", A2 == A)
            p.algebra("A^-1 B", R, meq(AiB, mmul(minv(A), B)))
            if dense:
                p.algebra("Schur complement", R, mat_is(S, m, m, lambda i, j: at(C, i, j) - at(quad(B, A), i, j)))
            else:
                p.ensure("S is kept", S == C)


build("block_dense", True)
build("block_schur", False)


for fn in ("block_rows", "block_cols"):
    def _(fn=fn):
        @spec("C02", MOD, fn)
        def s(v):
            A, AiB, S = blocks(v.pre[0])
            factors(v, A, S)
            for p in v.run():
                p.ensure("size of the whole matrix", p.ret == smt.rows(A) + smt.rows(S))
    _()


BX = z3.Const("block_X", MAT)       # the matrix of a block symmetric solver (proved: block_solve, partitioned system)


def inner(c):
    """is the call one of the solver of the first block of a nested one"""
    return "BlockSymmetric<albatross::BlockSymmetric<" not in c.dem


def block_size(c):
    if not inner(c):
        return NotImplemented
    return c.ret(Leaf("i64", smt.rows(BX)))


def whole_solve(c):
    """contract proved in block_solve, block_solve_vec and the lemma"""
    if not inner(c):
        return NotImplemented
    r = CE.val(c, 1)
    c.ex.oblige(c.st, "right hand side of a block solve has its size", smt.rows(r) == smt.rows(BX), "pre")
    return c.ret(leafm(mmul(minv(BX), r)))


WHOLE = {"albatross::BlockSymmetric::solve": whole_solve, "albatross::BlockSymmetric::rows": block_size, "albatross::BlockSymmetric::cols": block_size}


def joined(t, x):
    """candidate invariants: the elements so far are those of t and x in this order"""
    def f(ctx):
        out = converted(x)(ctx)
        n0 = t.n.e
        for vn, vg in ctx.of(Vec):
            if len(list(leaves(vg(ctx.entry).el))) == 1 and next(leaves(vg(ctx.entry).el)).kind == "i32":
                out.append((vn + " holds t then x so far", lambda s, vg=vg: forall(J, implies(rng(J, 0, vg(s).n.e), el(vg(s), J) == z3.If(J < n0, el(t, J), el(x, J - n0))), el(vg(s), J))))
        return out
    return f


def updating(fn, args, nested=False):
    @spec("C02", MOD, fn, contracts=dict(CALLS, **WHOLE) if nested else CALLS)
    def s(v):
        """the updated fit is that of the concatenated data: the system of all data is [[A,K],[K',C]] information = residuals"""
        fit, x, y = args(v)
        t, *A0, w = [q for _, q in sorted(fit.d.items())]
        w, n0, n = w.e, t.n.e, x.n.e
        if nested:
            A, R = BX, Ring()
            R.symmetric(A)
            v.requires(smt.cols(A) == smt.rows(A))
        else:
            A = A0[0].e
            R = factors(v, A)
        symmetric(v)
        v.template(joined(t, x))
        v.requires(z3.And(smt.rows(A) == n0, smt.rows(w) == n0, smt.rows(mean(y)) == n, valid_marginal(y)))
        v.requires(forall([I_, J_], implies(z3.And(rng(I_, 0, n0), rng(J_, 0, n)), n_(el(t, I_), el(x, J_)) == 0), n_(el(t, I_), el(x, J_))))
        r1 = z3.Const("spec_r1", MAT)       # the residuals of the first fit, of which w solves the system
        v.requires(z3.And(smt.rows(r1) == n0, smt.cols(r1) == 1, meq(w, mmul(minv(A), r1))))
        R.define(w, mmul(minv(A), r1))
        K = mat_const(v, "K", n0, n, lambda i, j: km_(el(t, i), el(x, j)))
        C = mat_const(v, "C", n, n, lambda i, j: km_(el(x, i), el(x, j)) + z3.If(i == j, at(cov(y), i), z3.RealVal(0)))
        M = mat_const(v, "M", n, z3.IntVal(1), lambda i, j: mm_(el(x, i)))
        S = msub(C, quad(K, A))
        R.symmetric(C, S)
        for p in v.run():
            f, *A2, AiB, S2, info = [q for _, q in sorted(p.ret.d.items())]
            AiB, S2, info = AiB.e, S2.e, info.e
            p.ensure("training features are those of both", z3.And(f.n.e == n0 + n, forall(J, implies(rng(J, 0, n0 + n), el(f, J) == z3.If(
                J < n0, el(t, J), el(x, J - n0))), el(f, J))))
            top, bot = mblock(info, Z, Z, n0, z3.IntVal(1)), mblock(info, n0, Z, n, z3.IntVal(1))
            ring_align(p, R, {"the cross covariance": K, "the new covariance": C, "the new mean": M, "the Schur complement": S}, [AiB, S2, top, bot] + p.st.facts)
            for a, b in zip(A2, A0):
                p.ensure("A is kept", a.e == b.e)
            p.algebra("A^-1 B", R, meq(AiB, mmul(minv(A), K)))
            p.algebra("Schur complement", R, meq(S2, S))
            x1, x2 = solution(A, mmul(minv(A), K), S, r1, msub(mean(y), M))
            p.algebra("upper part of the solution", R, meq(top, x1))
            p.algebra("lower part of the solution", R, meq(bot, x2))


updating("update_impl", lambda v: v.pre[1:4])




class Part:
    """part of a flattened object"""
    def __init__(self, n, *offsets):
        self.d = {o: n.d[o] for o in offsets}


def inside_model(v):
    f = v.pre[0]
    return (Part(f, *sorted(f.d)[-3:]),) + dataset(v.pre[1])


updating("update_public", inside_model)


def predict(what):
    @spec("C02", MOD, "updated_" + what, contracts=dict(CALLS, **WHOLE))
    def s(v):
        """a prediction from an updated fit is the conditioning on all data"""
        x, fit = v.pre[1], v.pre[2]
        t, w = (fit.d[k] for k in (min(fit.d), max(fit.d)))
        w = w.e
        v.requires(z3.And(smt.rows(BX) == t.n.e, smt.cols(BX) == t.n.e, smt.rows(w) == t.n.e))
        R = Ring()
        R.symmetric(BX)
        K, m, S = against(v, t, x, k_, m_)
        v.template(filled(x.n.e, lambda i: k_(el(x, i), el(x, i))))
        for p in v.run():
            posterior(p, R, p.ret, x.n.e, {"the cross covariance": K, "the mean": m, "the prior covariance": S},
                      madd(m, mmul(mtr(K), w)), msub(S, quad(K, BX)), what)


for what in ("mean", "marginal", "joint"):
    predict(what)


@spec("C02", MOD, "block2_dense", contracts=WHOLE)
def block2_dense(v):
    """partitioned systems whose first block is partitioned itself"""
    n0 = v.pre[0]
    B, C = v.a(1), v.a(2)
    R = Ring()
    R.symmetric(BX)
    n, m = smt.rows(BX), smt.cols(B)
    v.requires(z3.And(smt.cols(BX) == n, smt.rows(B) == n, smt.rows(C) == m, smt.cols(C) == m))
    v.requires(forall([I_, J_], implies(z3.And(rng(I_, 0, m), rng(J_, 0, m)), at(C, I_, J_) == at(C, J_, I_)), at(C, I_, J_)))
    for p in v.run():
        *A2, AiB, S = blocks(p.ret)
        for a, b in zip(A2, blocks(n0)):
            p.ensure("A is kept", a == b)
        p.algebra("A^-1 B", R, meq(AiB, mmul(minv(BX), B)))
        p.algebra("Schur complement", R, mat_is(S, m, m, lambda i, j: at(C, i, j) - at(quad(B, BX), i, j)))


@spec("C02", MOD, "block2_solve", contracts=WHOLE)
def block2_solve(v):
    *_, AiB, S = blocks(v.pre[0])
    rhs = v.a(1)
    R = factors(v, S)
    R.symmetric(BX)
    v.requires(z3.And(smt.cols(BX) == smt.rows(BX), smt.rows(AiB) == smt.rows(BX), smt.cols(AiB) == smt.rows(S), smt.rows(rhs) == smt.rows(BX) + smt.rows(S)))
    ra, rb = split(0, BX, S, rhs)
    x, y = solution(BX, AiB, S, ra, rb)
    for p in v.run():
        ring_align(p, R, {"upper right hand side": ra, "lower right hand side": rb}, [p.ret])
        p.algebra("solution of the partitioned system", R, stacked(p.ret, x, y))


updating("update_again", lambda v: v.pre[1:4], nested=True)
