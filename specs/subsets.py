"""Contracts of the subset functions, proved in C07."""
from speclib import *
from c10 import mat_is, at, I_, J_
import contracts_eigen as CE


def fresh_matrix(c, n, w, e, tag):
    M = z3.Const(fresh_name(tag), MAT)
    c.st.assume(mat_is(M, n, w, e))
    return M


def in_range(c, ix, n):
    c.ex.oblige(c.st, "indices in range", forall(J, implies(rng(J, 0, ix.n.e), rng(sel(ix.el, J).e, 0, n)), sel(ix.el, J).e), "pre")


def subset(c):
    ps = [p for p in c.params]
    if "vector" in ps[0].split("<")[0] or "Dataset" in ps[0] or "Distribution" in ps[0]:
        return NotImplemented
    A = CE.val(c, 0)
    r = c.ex.node_at(c.st, c.args[1])
    in_range(c, r, smt.rows(A))
    ri = lambda i: sel(r.el, i).e
    if len(ps) == 3:
        s = c.ex.node_at(c.st, c.args[2])
        in_range(c, s, smt.cols(A))
        si = lambda i: sel(s.el, i).e
        return c.ret(Leaf("mat", fresh_matrix(c, r.n.e, s.n.e, lambda i, j: smt.at(A, ri(i), si(j)), "subset")))
    return c.ret(Leaf("mat", fresh_matrix(c, r.n.e, z3.IntVal(1), lambda i, j: at(A, ri(i)), "subset")))


SUBSET = {"albatross::subset": subset}
