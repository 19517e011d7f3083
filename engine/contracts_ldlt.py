"""Assumed contracts of Eigen's pivoted LDLT and column pivoted QR on the theory of matrices.

A factorisation is represented by the matrix it factors (the symmetric matrix of the lower triangle it was given).  For a
symmetric positive definite matrix A: A = P' L D L' P with a permutation P, L unit lower triangular and D positive, and solve(b)
is inv(A) b.  A QR factorisation is represented by the matrix A it factors: A P = Q R with orthonormal Q."""
import re
import z3
import smt
import cxx
import exec as X
from trees import *
import contracts_eigen as CE
from contracts_eigen import METHODS, method, val, out, assign, need, rows, cols, lvalue, base_val, base_set, ismat, derived, short, mat, raw, view
from ring import L_, D_, P_, SYM, QM_, QP_, ldlt_facts


def fresh_ldlt(ex, st, ty, tag, ks):
    F = z3.Const(fresh_name(tag), lift(ks, MAT))
    if not ks and st is not None:
        ex.mat_facts(st, F, None)
        st.assume(cols(F) == rows(F))
    return Leaf("mat", F, ks)


FACTORED = ("Eigen::LDLT", "Eigen::LLT", "Eigen::SerializableLDLT", "Eigen::ColPivHouseholderQR")


def fresh_qr(ex, st, ty, tag, ks):
    F = z3.Const(fresh_name(tag), lift(ks, MAT))
    if not ks and st is not None:
        ex.mat_facts(st, F, None)
    return Leaf("mat", F, ks)


FRESH = {"Eigen::LDLT": fresh_ldlt, "Eigen::LLT": fresh_ldlt, "Eigen::SerializableLDLT": fresh_ldlt, "Eigen::ColPivHouseholderQR": fresh_qr,
         "Eigen::PermutationMatrix": fresh_qr}
X.FRESH.update(FRESH)


def ctor(c, f):
    ex, st, this = c.ex, c.st, c.args[0]
    if not c.params:
        z = z3.Const(fresh_name("ldlt"), MAT)
        st.assume(z3.And(rows(z) == 0, cols(z) == 0))
        ex.write(st, this, mat(z))
    else:
        t = derived(cxx.parse_type(c.params[0]))
        if not ismat(c, c.args[1]):
            return NotImplemented
        e = val(c, 1)
        if "Eigen::" + short(t) not in FACTORED:
            e = f(c, e)
        ex.write(st, this, mat(e))
    return c.ret(this if c.rt.k == "ptr" and c.sret is None else None)


def factor(c, e):
    need(c, "square", rows(e) == cols(e))
    F = SYM(e)
    c.st.assume(z3.And(rows(F) == rows(e), cols(F) == cols(e)))
    # a symmetric matrix is the one its lower triangle determines
    i, j = z3.Int(fresh_name("si")), z3.Int(fresh_name("sj"))
    from smt import at
    c.st.assume(z3.Or(F == e, z3.And(i >= 0, j >= 0, i < rows(e), j < rows(e), at(e, i, j) != at(e, j, i))))
    return F


METHODS["ctor:LLT"] = METHODS["ctor:LDLT"] = lambda c: ctor(c, factor)
METHODS["ctor:ColPivHouseholderQR"] = lambda c: ctor(c, lambda c, e: e)


CH_ = smt.uf("cholesky_L", MAT, MAT)       # for positive definite A: A = L L' with L lower triangular


def cholesky_facts(F):
    l = CH_(F)
    i, j = z3.Ints("ri rj")
    x = smt.at(l, i, j)
    return [cols(F) == rows(F), rows(l) == rows(F), cols(l) == rows(F),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < rows(F)), x == 0), patterns=[x])]


@method("LLT.matrixL")
def _cholesky(c):
    F = val(c, 0)
    for x in cholesky_facts(F):
        c.st.assume(x)
    l = CH_(F)
    if c.rt.k == "ptr" and c.sret is None:
        o = c.ex.new_obj(c.st, "factor")
        c.st.put(o, 0, mat(l))
        return c.ret(Ptr(o))
    return out(c, l)


@method("ldlt", "llt")
def _ldlt(c):
    return out(c, factor(c, val(c, 0)))


@method("colPivHouseholderQr")
def _qr(c):
    return out(c, val(c, 0))


@method("LDLT.compute")
def _compute(c):
    c.ex.write(c.st, c.args[0], mat(factor(c, val(c, 1))))
    return c.ret(c.args[0])


@method("LDLT.operator=", "ColPivHouseholderQR.operator=")
def _set(c):
    c.ex.write(c.st, c.args[0], mat(val(c, 1)))
    return c.ret(c.args[0])


def part(f):
    def h(c):
        F = val(c, 0)
        for x in ldlt_facts(F):
            c.st.assume(x)
        e = f(F)
        if c.rt.k == "ptr" and c.sret is None:
            o = c.ex.new_obj(c.st, "factor")
            c.st.put(o, 0, mat(e))
            return c.ret(Ptr(o))
        return out(c, e)
    return h


METHODS["LDLT.matrixL"] = part(L_)
METHODS["LDLT.vectorD"] = part(D_)
METHODS["LDLT.transpositionsP"] = part(P_)
METHODS["LDLT.matrixU"] = part(lambda F: smt.mtr(L_(F)))


@method("LDLT.rows", "LDLT.cols")
def _dim(c):
    return c.ret(rows(val(c, 0)))


@method("solve")
def _solve(c):
    """triangular solve, or solution of the factored system"""
    F, b = val(c, 0), val(c, 1)
    n = short(derived(c.cls()))
    if n == "ColPivHouseholderQR":
        need(c, "dimensions agree", rows(F) == rows(b))
        # least squares solution for full column rank
        FtF = smt.mmul(smt.mtr(F), F)
        return out(c, smt.mmul(smt.minv(FtF), smt.mmul(smt.mtr(F), b)))
    need(c, "dimensions agree", z3.And(rows(F) == cols(F), rows(F) == rows(b)))
    return out(c, smt.mmul(smt.minv(F), b))


@method("solveInPlace")
def _inplace(c):
    F = val(c, 0)
    t = lvalue(c, c.args[1])
    b = base_val(c.ex, c.st, t)
    need(c, "dimensions agree", z3.And(rows(F) == cols(F), rows(F) == rows(b)))
    base_set(c.ex, c.st, t, smt.mmul(smt.minv(F), b))
    return c.ret(None)


@method("PermutationBase.inverse", "PermutationBase.transpose", "TranspositionsBase.inverse", "TranspositionsBase.transpose", "InverseImpl.inverse")
def _pinv(c):
    return out(c, smt.mtr(val(c, 0)))


@method("ColPivHouseholderQR.matrixR", "ColPivHouseholderQR.matrixQR")
def _matrixr(c):
    F = val(c, 0)
    e = QM_(F)
    c.st.assume(z3.And(rows(e) == rows(F), cols(e) == cols(F)))
    o = c.ex.new_obj(c.st, "factor")
    c.st.put(o, 0, mat(e))
    return c.ret(Ptr(o)) if c.rt.k == "ptr" and c.sret is None else out(c, e)


@method("ColPivHouseholderQR.colsPermutation")
def _qrp(c):
    F = val(c, 0)
    e = QP_(F)
    c.st.assume(z3.And(rows(e) == cols(F), cols(e) == cols(F)))
    o = c.ex.new_obj(c.st, "factor")
    c.st.put(o, 0, mat(e))
    return c.ret(Ptr(o))


@method("indices")
def _indices(c):
    """the permutation itself stands for its index vector"""
    if c.rt.k == "ptr" and c.sret is None:
        return c.ret(c.args[0])
    return out(c, val(c, 0))


@method("colwise")
def _colwise(c):
    if c.dem.endswith(" const"):
        return out(c, val(c, 0))
    return view(c, "id", ())


@method("VectorwiseOp.operator*=")
def _colscale(c):
    t = lvalue(c, c.args[0])
    X, d = base_val(c.ex, c.st, t), val(c, 1)
    need(c, "dimensions agree", rows(X) == rows(d))
    base_set(c.ex, c.st, t, smt.mmul(smt.mdiagm(d), X))
    return c.ret(c.args[0])


@method("VectorwiseOp.sum")
def _colsum(c):
    X = val(c, 0)
    return out(c, smt.mcolsum(X))


def columns(c):
    """columns of X, each of which is combined with the vector d"""
    if "VectorwiseOp" not in c.cls().name or not re.search(r", 0>$", c.dem.split("::operator")[0]):
        raise Unsupported("Eigen: " + c.dem[:300])
    X, d = val(c, 0), val(c, 1)
    need(c, "dimensions agree", z3.And(rows(X) == rows(d), cols(d) == 1))
    return X, d


@method("VectorwiseOp.operator+")
def _coladd(c):
    X, d = columns(c)
    return out(c, smt.madd(X, smt.mrep(d, cols(X))))


@method("VectorwiseOp.operator-")
def _colsub(c):
    X, d = columns(c)
    return out(c, smt.msub(X, smt.mrep(d, cols(X))))


@method("VectorwiseOp.operator*")
def _colmul(c):
    X, d = columns(c)
    return out(c, smt.mcmul(X, smt.mrep(d, cols(X))))


@method("VectorwiseOp.operator+=")
def _colinc(c):
    X, d = columns(c)
    base_set(c.ex, c.st, lvalue(c, c.args[0]), smt.madd(X, smt.mrep(d, cols(X))))
    return c.ret(c.args[0])
