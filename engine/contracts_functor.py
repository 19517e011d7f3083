"""Eigen expressions made of a callable of the caller (NullaryExpr, unaryExpr, binaryExpr), entrywise comparisons and draws of
random numbers.

The body of the callable is executed once, for an arbitrary entry; the expression is the matrix all of whose entries are the result
for their arguments.  Assumed: the callable is called exactly once for every entry, an expression is evaluated once, and
normal_distribution(m, s) draws m + s z with independent standard normal z."""
import re
import z3
import smt
import exec as X
from trees import *
import contracts_std as S
import contracts_eigen as CE
from exec import contract
from contracts_eigen import METHODS, method, val, out, need, rows, cols, scalar

DRAW = "standard_normal"


def body(c):
    """operator() of the callable, which is the last argument, and the object"""
    mod = c.ex.mod
    c0 = [k for k, d in mod.dem.items() if k in mod.fn_at and re.search(r"lambda[^:]*::operator\(\)", d) and d[:d.rindex("::operator()")] in c.dem]
    if len(c0) != 1:
        raise Unsupported("callable of " + c.dem[:200])
    x = c.args[-1]
    if isinstance(x, Agg):
        fo = Ptr(c.ex.new_obj(c.st, "functor"))
        for o, y in x.d.items():
            c.ex.write(c.st, fo.add(o), y)
        return c0[0], fo
    return c0[0], x


def entrywise(c, r, w, mats):
    ex, st = c.ex, c.st
    f, fo = body(c)
    i, j = z3.Ints("ri rj")
    xs = [z3.Real(fresh_name("entry")) for m in mats]
    e = S.summarize(ex, st, lambda s: ex.run_fn(s, f, [fo] + xs))
    e = z3.ToReal(e) if z3.is_int(e) else e
    draws, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
            if z3.is_const(x) and x.decl().name().startswith(DRAW):
                draws.append(x)
    zs = []
    for d in draws:
        Zm = z3.Const(fresh_name(DRAW + "_matrix"), MAT)
        st.assume(z3.And(rows(Zm) == r, cols(Zm) == w))
        zs.append(Zm)
    if draws and e.get_id() == draws[0].get_id():
        return out(c, zs[0])
    m = z3.Const(fresh_name("m"), MAT)
    e = z3.substitute(e, [(x, smt.at(k, i, j)) for x, k in zip(xs + draws, list(mats) + zs)])
    st.assume(z3.And(rows(m) == r, cols(m) == w))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < r, j < w), smt.at(m, i, j) == e), patterns=[smt.at(m, i, j)]))
    return out(c, m)


@method("NullaryExpr")
def _nullary(c):
    dims = [c.args[k] for k in range(len(c.args) - 1)]
    dims = [x.e if isinstance(x, Leaf) else x for x in dims]
    if len(dims) != 2:
        raise Unsupported("NullaryExpr")
    return entrywise(c, dims[0], dims[1], [])


@method("unaryExpr")
def _unary(c):
    A = val(c, 0)
    return entrywise(c, rows(A), cols(A), [A])


@method("binaryExpr")
def _binary(c):
    A, B = val(c, 0), val(c, 1)
    need(c, "dimensions agree", z3.And(rows(A) == rows(B), cols(A) == cols(B)))
    return entrywise(c, rows(A), cols(A), [A, B])


@contract("std::normal_distribution::operator()")
def _normal(c):
    if len(c.args) != 2:
        raise Unsupported("normal_distribution with parameters")
    p = c.args[0]
    m, s = c.ex.node_at(c.st, p), c.ex.node_at(c.st, p.add(8))
    m, s = (x.e if isinstance(x, Leaf) else x for x in (m, s))
    return c.ret(z3.simplify(m + s * z3.Real(fresh_name(DRAW))))


def compare(op):
    f = {">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b}[op]

    def h(c):
        A = val(c, 0)
        i, j = z3.Ints("ri rj")
        m = z3.Const(fresh_name("cmp"), MAT)
        if CE.ismat(c, c.args[1]):
            B = val(c, 1)
            need(c, "dimensions agree", z3.And(rows(A) == rows(B), cols(A) == cols(B)))
            y = smt.at(B, i, j)
        else:
            y = CE.real(scalar(c, c.args[1]))
        c.st.assume(z3.And(rows(m) == rows(A), cols(m) == cols(A)))
        c.st.assume(z3.ForAll([i, j], smt.at(m, i, j) == z3.If(f(smt.at(A, i, j), y), z3.RealVal(1), z3.RealVal(0)), patterns=[smt.at(m, i, j)]))
        return out(c, m)
    return h


for _op in (">", ">=", "<", "<="):
    METHODS["operator" + _op] = compare(_op)


@method("all")
def _all(c):
    A = val(c, 0)
    i, j = z3.Ints("ri rj")
    b = z3.Bool(fresh_name("all"))
    k, l = z3.Int(fresh_name("row")), z3.Int(fresh_name("column"))
    c.st.assume(z3.Implies(b, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < rows(A), j < cols(A)), smt.at(A, i, j) != 0), patterns=[smt.at(A, i, j)])))
    c.st.assume(z3.Implies(z3.Not(b), z3.And(k >= 0, l >= 0, k < rows(A), l < cols(A), smt.at(A, k, l) == 0)))
    return c.ret(b)


@method("LDLT.info", "LLT.info", "ColPivHouseholderQR.info", "HouseholderQR.info")
def _info(c):
    """a decomposition succeeds: assumed"""
    return c.ret(z3.IntVal(0))


SEEDED = smt.uf("seeded", INT, INT)         # state of a generator


@contract("std::linear_congruential_engine::linear_congruential_engine")
def _engine(c):
    """the state of the generator is a function of the seed"""
    x = c.args[1]
    x = x.e if isinstance(x, Leaf) else x
    c.ex.write(c.st, c.args[0], Leaf("i64", SEEDED(x)))
    return c.ret(None)


@method("ArrayBase.pow")
def _pow(c):
    A, y = val(c, 0), z3.simplify(CE.real(scalar(c, c.args[1])))
    if z3.is_rational_value(y) and y.as_fraction() == 1:
        return out(c, A)
    if z3.is_rational_value(y) and y.as_fraction() == 2:
        return out(c, smt.mcmul(A, A))
    i, j = z3.Ints("ri rj")
    m = z3.Const(fresh_name("pow"), MAT)
    c.st.assume(z3.And(rows(m) == rows(A), cols(m) == cols(A)))
    c.st.assume(z3.ForAll([i, j], smt.at(m, i, j) == c.ex.mathfn(c.st, "pow", [smt.at(A, i, j), y]), patterns=[smt.at(m, i, j)]))
    return out(c, m)
