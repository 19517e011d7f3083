"""Assumed contracts of Eigen, on the theory of matrices of smt.py.

Every expression object holds its value (evaluation at construction instead of at assignment: the assumption is
that an operand is not modified between building and using an expression); a non-const view (block, row, column,
diagonal, transpose, ...) is an lvalue LV(base, kind, p) that reads and writes through to its base.  A diagonal
matrix is represented by its diagonal.  Index ranges and agreement of dimensions are obligations of the caller.
"""
import re
import z3
import cxx
import smt
import exec as X
from smt import rows, cols, at
from trees import *
from exec import contract, pattern, Engine, MAXLEN, in_range
from contracts_std import num, as_iter

CRTP = {"MatrixBase", "DenseBase", "EigenBase", "PlainObjectBase", "DenseCoeffsBase", "DiagonalBase", "ArrayBase", "MapBase",
        "NoAlias", "SolverBase", "TriangularBase", "SparseMatrixBase", "BlockImpl", "CwiseBinaryOpImpl", "SparseCompressedBase",
        "PermutationBase"}
ZERO, ONE = z3.IntVal(0), z3.IntVal(1)


def short(t):
    return t.name.split("::")[-1] if t.k == "named" else t.k


def derived(t):
    while t.k == "named" and short(t) in CRTP and t.args:
        t = t.args[0]
    if t.k == "ptr":
        t = t.tgt
    return t


def ctdims(t):
    """compile-time (rows, cols), -1 when dynamic"""
    t = derived(t)
    if t.k != "named":
        return (-1, -1)
    n, a = short(t), t.args or []

    def i(x):
        try:
            return int(str(x))
        except ValueError:
            return -1
    if n in ("Matrix", "Array"):
        return (i(a[1]), i(a[2]))
    if n == "Block":
        return (i(a[1]), i(a[2]))
    if n == "VectorBlock":
        return (1, -1) if ctdims(a[0])[0] == 1 else (-1, 1)
    if n == "Transpose":
        r, c = ctdims(a[0])
        return (c, r)
    if n == "Diagonal":
        return (-1, 1)
    if n in ("CwiseUnaryOp", "CwiseNullaryOp", "CwiseUnaryView"):
        return ctdims(a[1])
    if n in ("ArrayWrapper", "MatrixWrapper", "Ref", "Map", "Inverse", "Reverse"):
        return ctdims(a[0])
    if n in ("CwiseBinaryOp",):
        d1, d2 = ctdims(a[1]), ctdims(a[2])
        return tuple(x if x != -1 else y for x, y in zip(d1, d2))
    if n in ("CwiseTernaryOp", "Select"):
        return ctdims(a[1])
    if n == "Product":
        return (ctdims(a[0])[0], ctdims(a[1])[1])
    if n == "Solve":
        return (-1, ctdims(a[1])[1])
    if n == "PartialReduxExpr":
        return (-1, 1) if i(a[2]) == 1 else (1, -1)
    return (-1, -1)


def is_diag(t):
    t = derived(t)
    return t.k == "named" and short(t) in ("DiagonalMatrix", "DiagonalWrapper")


def is_row(t):
    r, c = ctdims(t)
    return r == 1 and c != 1


def is_vec(t):
    r, c = ctdims(t)
    return r == 1 or c == 1


# ------------------------------------------------------------------ values
def raw(c, a):
    """node behind an argument"""
    if isinstance(a, PyObj) and a.kind == "part0":
        a = a.d["v"]
    if isinstance(a, Agg) and 0 in a.d:
        a = a.d[0]
    if isinstance(a, Iter):
        a = c.ex.iter_deref(c.st, a)
    if isinstance(a, Ptr):
        n = c.ex.node_at(c.st, a)
        if isinstance(n, Ptr):          # address of a reference
            n = c.ex.node_at(c.st, n)
        return n
    return a


def nodeval(c, n, t=None):
    if isinstance(n, LV):
        e = c.ex.lvval(c.st, n)
    elif isinstance(n, Leaf) and n.kind == "mat":
        e = n.e
    else:
        raise Unsupported("matrix value expected, got %r in %s" % (type(n).__name__, c.key))
    if t is not None and is_diag(t):
        return smt.mdiagm(e)
    return e


def val(c, i, t=None):
    """dense value of argument i"""
    return nodeval(c, raw(c, c.args[i]), t)


def ismat(c, a):
    try:
        n = raw(c, a)
    except Unsupported:
        return False
    return isinstance(n, LV) or (isinstance(n, Leaf) and n.kind == "mat")


def scalar(c, a):
    if isinstance(a, PyObj) and a.kind == "part0":
        a = a.d["v"]
    if isinstance(a, Iter):
        a = c.ex.iter_deref(c.st, a)
    if isinstance(a, Ptr):
        n = c.ex.node_at(c.st, a)
        if isinstance(n, Leaf):
            a = n.e
    if isinstance(a, Leaf):
        a = a.e
    if not z3.is_expr(a) or a.sort() == MAT:
        raise Unsupported("scalar expected in %s: %r" % (c.key, a))
    return a


def real(x):
    return z3.ToReal(x) if z3.is_int(x) else x


def mat(e):
    return Leaf("mat", e)


def need(c, name, goal):
    g = z3.simplify(goal)
    if not z3.is_true(g):
        c.ex.oblige(c.st, "eigen:%s (%s)" % (name, c.comps[-1][0]), goal)


def same_dims(c, a, b):
    need(c, "dimensions agree", z3.And(rows(a) == rows(b), cols(a) == cols(b)))


def lv_get(e, kind, p):
    if kind == "block":
        return smt.mblock(e, *p)
    if kind == "diag":
        return smt.mdiag(e)
    if kind == "tr":
        return smt.mtr(e)
    if kind == "id":
        return e
    if kind == "tri":
        return smt.mtri(e, p[0])
    raise Unsupported("view " + kind)


def lv_put(e, kind, p, v):
    if kind == "block":
        return smt.mblockset(e, p[0], p[1], v)
    if kind == "diag":
        return smt.mdiagset(e, v)
    if kind == "tr":
        return smt.mtr(v)
    if kind == "id":
        return v
    if kind == "tri":
        return smt.mtriset(e, v, p[0])
    raise Unsupported("view " + kind)


def base_val(ex, st, b):
    if isinstance(b, LV):
        return ex.lvval(st, b)
    n = ex.node_at(st, b)
    if isinstance(n, LV):
        return ex.lvval(st, n)
    if isinstance(n, Leaf) and n.kind == "mat":
        return n.e
    raise Unsupported("base of a view")


def base_set(ex, st, b, v):
    if isinstance(b, Ptr):
        n = ex.node_at(st, b)
        if not isinstance(n, LV):
            ex.write(st, b, mat(v))
            return
        b = n
    base_set(ex, st, b.base, lv_put(base_val(ex, st, b.base), b.kind, b.p, v))


def lvval(self, st, lv):
    return lv_get(base_val(self, st, lv.base), lv.kind, lv.p)


def lv_write_elem(self, st, lv, steps, v):
    if len(steps) != 1 or steps[0][0] != "e":
        raise Unsupported("write through a view")
    i = steps[0][1]
    base_set(self, st, lv, smt.mset(lvval(self, st, lv), i[0], i[1], v.e))


Engine.lvval = lvval
Engine.lv_write_elem = lv_write_elem


def lvalue(c, a):
    """where assignments to argument a go: pointer or LV"""
    if isinstance(a, LV):
        return a
    if isinstance(a, PyObj) and a.kind == "part0":
        a = a.d["v"]
    if isinstance(a, Iter):
        a = c.ex.iter_deref(c.st, a)
    if isinstance(a, Ptr):
        n = c.ex.node_at(c.st, a)
        if isinstance(n, LV):
            return n
        if isinstance(n, Ptr):
            return lvalue(c, n)
        return a
    raise Unsupported("assignment target in %s" % c.key)


def assign(c, v, a=None):
    t = lvalue(c, c.args[0] if a is None else a)
    base_set(c.ex, c.st, t, v)
    return c.ret(c.args[0])


def out(c, e):
    """return a matrix value"""
    if not z3.is_app(e) or len(e.children()) == 0:
        return c.ret(mat(e))
    return c.ret(mat(e))


def view(c, kind, p):
    """const method: the value; non-const: a view of the object"""
    if c.dem.endswith(" const"):
        return out(c, lv_get(val(c, 0), kind, p))
    b = lvalue(c, c.args[0])
    return c.ret(LV(b, kind, p))


def block(c, i, j, h, w):
    A = val(c, 0)
    need(c, "block inside the matrix", z3.And(i >= 0, j >= 0, h >= 0, w >= 0, i + h <= rows(A), j + w <= cols(A)))
    return view(c, "block", (i, j, h, w))


def sz(c, k):
    a = c.args[k]
    if z3.is_expr(a):
        return a
    a = scalar(c, a)
    return a


# ------------------------------------------------------------------ dispatch
OPS2 = {"+": smt.madd, "-": smt.msub}
METHODS = {}


def method(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


@pattern(r"^Eigen::(?!SerializableLDLT|SerializableSPQR)")
def eigen(c):
    name = c.comps[-1][0]
    cls = c.comps[-2][0] if len(c.comps) > 1 else ""
    if name.startswith("~"):
        return c.ret(c.args[0] if c.rt.k == "ptr" and c.sret is None else None)
    if len(c.comps) == 2 and name.startswith("operator"):
        return free_op(c, name[8:])
    if name == cls:
        h = METHODS.get("ctor:" + cls, construct)
        return h(c)
    h = METHODS.get(cls + "." + name) or METHODS.get(name)
    if h is None:
        raise Unsupported("Eigen: " + c.dem[:300])
    r = h(c)
    if r is NotImplemented:
        raise Unsupported("Eigen: " + c.dem[:300])
    return r


def this_t(c):
    return derived(c.cls())


def ptype(c, k):
    """declared type of argument k of a method (k >= 1) """
    return derived(cxx.parse_type(c.params[k - 1]))


def fptype(c, k):
    return derived(cxx.parse_type(c.params[k]))


def free_op(c, op):
    ps = c.params
    if len(ps) != 2 or op not in ("*", "/", "+", "-"):
        raise Unsupported("Eigen: " + c.dem[:300])
    m0, m1 = ismat(c, c.args[0]), ismat(c, c.args[1])
    if op == "*" and m0 != m1:
        k = 0 if m0 else 1
        x = real(scalar(c, c.args[1 - k]))
        return out(c, smt.mscale(x, nodeval(c, raw(c, c.args[k]))))   # of a diagonal matrix: scaled diagonal
    if op == "*" and m0 and m1:
        A, B = val(c, 0, fptype(c, 0)), val(c, 1, fptype(c, 1))
        need(c, "dimensions agree", cols(A) == rows(B))
        return out(c, smt.mmul(A, B))
    if op in "+-" and m0 != m1:
        k = 0 if m0 else 1
        x = real(scalar(c, c.args[1 - k]))
        A = val(c, k)
        B = smt.mconst(rows(A), cols(A), x)
        return out(c, OPS2[op](A, B) if k == 0 else OPS2[op](B, A))
    if op == "/" and not m0 and m1:
        return out(c, smt.mscale(real(scalar(c, c.args[0])), smt.mcinv(val(c, 1))))
    raise Unsupported("Eigen: " + c.dem[:300])


def construct(c):
    t = this_t(c)
    ex, st, this = c.ex, c.st, c.args[0]
    ps = c.params or []
    R, C = ctdims(t)
    n = short(t)
    if n not in ("Matrix", "Array", "DiagonalMatrix"):
        raise Unsupported("Eigen: " + c.dem[:300])
    diag = n == "DiagonalMatrix"

    def put(e):
        ex.write(st, this, mat(e))
        return c.ret(this if c.rt.k == "ptr" else None)

    def uninit(r, w):
        m = z3.Const(fresh_name("m"), MAT)
        st.assume(z3.And(rows(m) == r, cols(m) == w))
        return put(m)
    if not ps:
        return uninit(z3.IntVal(max(R, 0)), z3.IntVal(1 if diag else max(C, 0)))
    if len(ps) == 1 or (len(ps) == 2 and ismat(c, c.args[1])):     # (expression, enable_if tag)
        if ismat(c, c.args[1]):
            src = derived(cxx.parse_type(ps[0]))
            e = val(c, 1)
            if diag != is_diag(src):
                if diag:
                    return put(e)       # from the diagonal vector
                e = smt.mdiagm(e)
            elif not diag and is_row(t) != is_row(src) and is_vec(t) and is_vec(src):
                e = smt.mtr(e)
            if ps[0].endswith("&&") and short(src) == n:
                z = z3.Const(fresh_name("moved"), MAT)
                st.assume(z3.And(rows(z) == max(R, 0), cols(z) == (1 if diag else max(C, 0))))
                put(e)
                ex.write(st, c.args[1], mat(z))
                return c.ret(this if c.rt.k == "ptr" else None)
            return put(e)
        x = scalar(c, c.args[1])
        if z3.is_int(x):
            need(c, "non-negative size", x >= 0)
            return uninit(*((z3.IntVal(1), x) if is_row(t) else (x, z3.IntVal(1))))
        raise Unsupported("Eigen: " + c.dem[:300])
    if len(ps) == 2 and (R, C) not in ((2, 1), (1, 2)):
        r, w = scalar(c, c.args[1]), scalar(c, c.args[2])
        if z3.is_int(r) and z3.is_int(w):
            need(c, "non-negative size", z3.And(r >= 0, w >= 0))
            return uninit(r, w)
    if R > 0 and C > 0 and R * C == len(ps):
        e = z3.Const(fresh_name("m"), MAT)
        st.assume(z3.And(rows(e) == R, cols(e) == C))
        for k in range(len(ps)):
            x = real(scalar(c, c.args[1 + k]))
            st.assume(at(e, z3.IntVal(0 if R == 1 else k), z3.IntVal(k if R == 1 else 0)) == x)
        return put(e)
    raise Unsupported("Eigen: " + c.dem[:300])


# ------------------------------------------------------------------ sizes
@method("rows", "outerSize", "innerSize")
def _rows(c):
    if c.comps[-1][0] != "rows":
        return NotImplemented
    return c.ret(rows(val(c, 0)))


@method("cols")
def _cols(c):
    e = val(c, 0)
    return c.ret(rows(e) if is_diag(this_t(c)) else cols(e))


@method("size")
def _size(c):
    t = this_t(c)
    e = val(c, 0)
    R, C = ctdims(t)
    if is_diag(t):
        return c.ret(rows(e) * rows(e))
    if C == 1:
        return c.ret(rows(e))
    if R == 1:
        return c.ret(cols(e))
    return c.ret(rows(e) * cols(e))


@method("resize", "conservativeResize", "setZero", "setConstant", "setOnes", "setIdentity", "fill", "setRandom")
def _resize(c):
    n = c.comps[-1][0]
    t = this_t(c)
    e = val(c, 0)
    xs = [scalar(c, a) for a in c.args[1:]]
    fillv = None
    if n in ("setConstant", "fill"):
        fillv = real(xs.pop())
    r, w = rows(e), cols(e)
    if len(xs) == 1:
        r, w = (ONE, xs[0]) if is_row(t) else (xs[0], ONE)
    elif len(xs) == 2:
        r, w = xs
    need(c, "non-negative size", z3.And(r >= 0, w >= 0))
    if n in ("setZero", "setConstant", "setOnes", "fill"):
        v = fillv if fillv is not None else z3.RealVal(1 if n == "setOnes" else 0)
        m = smt.mconst(r, w, v)
    elif n == "setIdentity":
        m = smt.mid(r, w)
    else:
        m = z3.Const(fresh_name("m"), MAT)
        c.st.assume(z3.And(rows(m) == r, cols(m) == w))
        if n == "conservativeResize":
            i, j = z3.Ints("bi bj")
            c.st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < r, j < w, i < rows(e), j < cols(e)),
                                                     at(m, i, j) == at(e, i, j)), patterns=[at(m, i, j)]))
        if n == "resize":       # unchanged when the size does not change
            c.st.assume(z3.Implies(z3.And(r == rows(e), w == cols(e)), m == e))
    return assign(c, m)


# ------------------------------------------------------------------ elements
@method("operator()", "operator[]", "coeff", "coeffRef")
def _elem(c):
    t = this_t(c)
    e = val(c, 0)
    xs = [scalar(c, a) for a in c.args[1:]]
    if is_diag(t):
        return NotImplemented
    if len(xs) == 2:
        i, j = xs
    elif len(xs) == 1 and is_vec(t):
        i, j = (ZERO, xs[0]) if is_row(t) else (xs[0], ZERO)
    else:
        return NotImplemented
    need(c, "index in range", z3.And(i >= 0, i < rows(e), j >= 0, j < cols(e)))
    if c.rt.k == "double":
        return c.ret(at(e, i, j))
    a = c.args[0]
    if isinstance(a, Iter):
        a = c.ex.iter_deref(c.st, a)
    if not isinstance(a, Ptr):
        o = c.ex.new_obj(c.st, "xv")
        c.st.put(o, 0, raw(c, a))
        a = Ptr(o)
    n = c.ex.node_at(c.st, a)
    if isinstance(n, Ptr):
        a = n
    return c.ret(a.step("e", (i, j)))


# ------------------------------------------------------------------ assignment and compound assignment
@method("operator=", "operator+=", "operator-=", "operator*=", "operator/=")
def _assign(c):
    op = c.comps[-1][0][8:]
    tgt = lvalue(c, c.args[0])
    t = this_t(c)
    cur = base_val(c.ex, c.st, tgt)
    if not ismat(c, c.args[1]):
        x = real(scalar(c, c.args[1]))
        if op == "*=":
            v = smt.mscale(x, cur)
        elif op == "/=":
            v = smt.mscale(1 / x, cur)
        elif op == "+=":
            v = smt.madd(cur, smt.mconst(rows(cur), cols(cur), x))
        elif op == "-=":
            v = smt.msub(cur, smt.mconst(rows(cur), cols(cur), x))
        else:
            v = smt.mconst(rows(cur), cols(cur), x)
        base_set(c.ex, c.st, tgt, v)
        return c.ret(c.args[0])
    st_ = ptype(c, 1)
    src = val(c, 1)
    if not is_diag(t) and is_diag(st_):
        src = smt.mdiagm(src)
    if op == "*=":
        if short(t) in ("Array", "ArrayWrapper"):
            v = smt.mcmul(cur, src)
        else:
            need(c, "dimensions agree", cols(cur) == rows(src))
            v = smt.mmul(cur, src)
    elif op == "=":
        if isinstance(tgt, LV):
            if is_vec(t) and is_vec(st_) and is_row(t) != is_row(st_):
                src = smt.mtr(src)
            same_dims(c, cur, src)
        elif is_vec(t) and is_vec(st_) and is_row(t) != is_row(st_):
            src = smt.mtr(src)
        v = src
    else:
        same_dims(c, cur, src)
        v = {"+=": smt.madd, "-=": smt.msub, "/=": smt.mcdiv}[op](cur, src)
    base_set(c.ex, c.st, tgt, v)
    if op == "=" and c.params[0].endswith("&&") and isinstance(c.args[1], Ptr) and short(st_) in ("Matrix", "Array"):
        n = c.ex.node_at(c.st, c.args[1])
        if isinstance(n, Leaf) and not (isinstance(tgt, Ptr) and tgt.key() == c.args[1].key()):
            z = z3.Const(fresh_name("moved"), MAT)
            c.ex.write(c.st, c.args[1], mat(z))
    return c.ret(c.args[0])


@method("swap")
def _swap(c):
    a, b = lvalue(c, c.args[0]), lvalue(c, c.args[1])
    x, y = base_val(c.ex, c.st, a), base_val(c.ex, c.st, b)
    base_set(c.ex, c.st, a, y)
    base_set(c.ex, c.st, b, x)
    return c.ret(None)


# ------------------------------------------------------------------ arithmetic
@method("operator+", "operator-")
def _addsub(c):
    op = c.comps[-1][0][8:]
    if len(c.args) == 1:
        return out(c, smt.mneg(val(c, 0)))
    t = this_t(c)
    if not ismat(c, c.args[1]):
        A = val(c, 0)
        return out(c, OPS2[op](A, smt.mconst(rows(A), cols(A), real(scalar(c, c.args[1])))))
    u = ptype(c, 1)
    if is_diag(t) and is_diag(u):
        A, B = val(c, 0), val(c, 1)
    else:
        A, B = val(c, 0, t), val(c, 1, u)
    same_dims(c, A, B)
    return out(c, OPS2[op](A, B))


@method("operator*", "operator/", "lazyProduct", "cwiseProduct", "cwiseQuotient")
def _mul(c):
    n = c.comps[-1][0]
    t = this_t(c)
    if not ismat(c, c.args[1]):
        x = real(scalar(c, c.args[1]))
        return out(c, smt.mscale(x if n == "operator*" else 1 / x, val(c, 0)))
    u = ptype(c, 1)
    arr = c.comps[-2][0] == "ArrayBase" or short(t) in ("Array", "ArrayWrapper")
    A, B = val(c, 0, t), val(c, 1, u)
    if n in ("cwiseProduct", "cwiseQuotient") or arr:
        same_dims(c, A, B)
        return out(c, (smt.mcdiv if n in ("cwiseQuotient", "operator/") else smt.mcmul)(A, B))
    if n == "operator/":
        return NotImplemented
    need(c, "dimensions agree", cols(A) == rows(B))
    return out(c, smt.mmul(A, B))


@method("operator==", "operator!=")
def _eq(c):
    A, B = val(c, 0), val(c, 1)
    same_dims(c, A, B)
    b = z3.Bool(fresh_name("mateq"))
    i, j = z3.Ints("bi bj")
    i0, j0 = z3.Int(fresh_name("ni")), z3.Int(fresh_name("nj"))
    inr = lambda i, j: z3.And(i >= 0, i < rows(A), j >= 0, j < cols(A))
    for tr in (A, B):
        c.st.assume(z3.ForAll([i, j], z3.Implies(z3.And(b, inr(i, j)), at(A, i, j) == at(B, i, j)), patterns=[at(tr, i, j)]))
    c.st.assume(z3.Or(b, z3.And(inr(i0, j0), at(A, i0, j0) != at(B, i0, j0))))
    return c.ret(b if c.comps[-1][0] == "operator==" else z3.Not(b))


# ------------------------------------------------------------------ views
@method("row", "col")
def _rowcol(c):
    A = val(c, 0)
    i = sz(c, 1)
    if c.comps[-1][0] == "row":
        return block(c, i, ZERO, ONE, cols(A))
    return block(c, ZERO, i, rows(A), ONE)


@method("block")
def _block(c):
    ta = c.comps[-1][1]
    if len(c.args) == 5:
        return block(c, sz(c, 1), sz(c, 2), sz(c, 3), sz(c, 4))
    if len(c.args) == 3 and ta and len(ta) >= 2:
        return block(c, sz(c, 1), sz(c, 2), z3.IntVal(int(ta[0])), z3.IntVal(int(ta[1])))
    return NotImplemented


@method("topRows", "bottomRows", "middleRows", "leftCols", "rightCols", "middleCols", "head", "tail", "segment",
        "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner")
def _part(c):
    n = c.comps[-1][0]
    A = val(c, 0)
    r, w = rows(A), cols(A)
    k = [sz(c, i) for i in range(1, len(c.args))]
    if len(k) < {"middleRows": 2, "middleCols": 2, "segment": 2, "topLeftCorner": 2, "topRightCorner": 2, "bottomLeftCorner": 2,
                 "bottomRightCorner": 2}.get(n, 1):
        k.append(z3.IntVal(int(c.comps[-1][1][0])))
    row = is_row(this_t(c))
    if n in ("head", "tail", "segment"):
        n = {"head": "leftCols", "tail": "rightCols", "segment": "middleCols"}[n] if row else \
            {"head": "topRows", "tail": "bottomRows", "segment": "middleRows"}[n]
    if n == "topRows":
        return block(c, ZERO, ZERO, k[0], w)
    if n == "bottomRows":
        return block(c, r - k[0], ZERO, k[0], w)
    if n == "middleRows":
        return block(c, k[0], ZERO, k[1], w)
    if n == "leftCols":
        return block(c, ZERO, ZERO, r, k[0])
    if n == "rightCols":
        return block(c, ZERO, w - k[0], r, k[0])
    if n == "middleCols":
        return block(c, ZERO, k[0], r, k[1])
    i = ZERO if n.startswith("top") else r - k[0]
    j = ZERO if "Left" in n else w - k[1]
    return block(c, i, j, k[0], k[1])


@method("triangularView")
def _triview(c):
    mode = re.match(r"\d+", str(c.comps[-1][1][0]))
    if mode is None or int(mode.group()) not in (1, 2):
        raise Unsupported("triangular view mode " + str(c.comps[-1][1]))
    return view(c, "tri", (z3.IntVal(int(mode.group())),))


@method("diagonal")
def _diagonal(c):
    if len(c.args) > 1:
        return NotImplemented
    if is_diag(this_t(c)):
        if c.sret is not None or c.rt.k != "ptr":
            return out(c, val(c, 0))
        return c.ret(c.args[0])
    return view(c, "diag", ())


@method("asDiagonal")
def _asdiag(c):
    return out(c, val(c, 0))


@method("toDenseMatrix")
def _dense(c):
    return out(c, val(c, 0, this_t(c)))


@method("transpose", "adjoint")
def _tr(c):
    if is_diag(this_t(c)):
        return NotImplemented
    if c.comps[-1][0] == "adjoint":
        return out(c, smt.mtr(val(c, 0)))
    return view(c, "tr", ())


@method("array", "matrix", "noalias", "derived", "const_cast_derived", "eval", "nestedExpression", "expression", "conjugate", "real", "const_derived")
def _ident(c):
    n = c.comps[-1][0]
    if n in ("derived", "const_cast_derived", "expression", "nestedExpression", "const_derived") and c.rt.k == "ptr":
        return c.ret(c.args[0])
    if n == "eval" or c.dem.endswith(" const"):
        return out(c, val(c, 0))
    return view(c, "id", ())


# ------------------------------------------------------------------ factories
@method("Constant", "Zero", "Ones", "Identity", "Random", "LinSpaced", "Unit")
def _factory(c):
    n = c.comps[-1][0]
    t = derived(c.cls())
    xs = [scalar(c, a) for a in c.args]
    R, C = ctdims(t)
    v = None
    if n == "Constant":
        v = real(xs.pop())
    if n in ("LinSpaced", "Unit"):
        return NotImplemented
    if len(xs) == 1:
        r, w = (ONE, xs[0]) if is_row(t) else (xs[0], ONE)
    elif len(xs) == 2:
        r, w = xs
    elif R > 0 and C > 0:
        r, w = z3.IntVal(R), z3.IntVal(C)
    else:
        return NotImplemented
    need(c, "non-negative size", z3.And(r >= 0, w >= 0))
    if n == "Identity":
        return out(c, smt.mid(r, w))
    if n == "Random":
        m = z3.Const(fresh_name("rnd"), MAT)
        c.st.assume(z3.And(rows(m) == r, cols(m) == w))
        return out(c, m)
    return out(c, smt.mconst(r, w, v if v is not None else z3.RealVal(1 if n == "Ones" else 0)))


# ------------------------------------------------------------------ comma initialiser
@method("operator<<")
def _comma(c):
    tgt = lvalue(c, c.args[0])
    cur = base_val(c.ex, c.st, tgt)
    if ismat(c, c.args[1]):
        src = val(c, 1, ptype(c, 1))
        need(c, "initialiser fits", z3.And(rows(src) <= rows(cur), cols(src) <= cols(cur)))
        new = smt.mblockset(cur, ZERO, ZERO, src)
        i, j, h = ZERO, cols(src), rows(src)
    else:
        x = real(scalar(c, c.args[1]))
        need(c, "initialiser fits", z3.And(rows(cur) >= 1, cols(cur) >= 1))
        new = smt.mset(cur, ZERO, ZERO, x)
        i, j, h = ZERO, ONE, ONE
    base_set(c.ex, c.st, tgt, new)
    return c.ret(PyObj("comma", t=tgt, i=i, j=j, h=h))


@method("operator,")
def _comma2(c):
    a = c.args[0]
    o = c.ex.node_at(c.st, a) if isinstance(a, Ptr) else a
    if not (isinstance(o, PyObj) and o.kind == "comma"):
        return NotImplemented
    tgt = o.d["t"]
    cur = base_val(c.ex, c.st, tgt)
    i, j, h = o.d["i"], o.d["j"], o.d["h"]
    isM = ismat(c, c.args[1])
    src = val(c, 1, ptype(c, 1)) if isM else None
    hh, ww = (rows(src), cols(src)) if isM else (ONE, ONE)
    try:
        C = ctdims(derived(c.cls().args[0]))[1]      # compile-time width
    except Unsupported:
        C = -1
    wrap = z3.simplify(j == (C if C > 0 else cols(cur)))
    if not (z3.is_true(wrap) or z3.is_false(wrap)):
        if not c.ex.feas.feasible(c.st.facts, z3.And(wrap)):
            wrap = z3.BoolVal(False)
        elif not c.ex.feas.feasible(c.st.facts, z3.Not(wrap)):
            wrap = z3.BoolVal(True)
        else:
            return NotImplemented
    if z3.is_true(wrap):
        i, j, h = i + h, ZERO, hh
    need(c, "initialiser fits", z3.And(i + hh <= rows(cur), j + ww <= cols(cur), hh == h))
    base_set(c.ex, c.st, tgt, smt.mblockset(cur, i, j, src) if isM else smt.mset(cur, i, j, real(scalar(c, c.args[1]))))
    n = PyObj("comma", t=tgt, i=i, j=j + ww, h=h)
    if isinstance(a, Ptr):
        c.st.put(a.obj, a.off, n)
        return c.ret(a)
    return c.ret(n)


@method("CommaInitializer.finished")
def _fin(c):
    return c.ret(c.args[0])


# ------------------------------------------------------------------ coefficient-wise functions and reductions
@method("sum", "squaredNorm", "norm", "trace", "mean", "prod", "maxCoeff", "minCoeff", "determinant", "allFinite", "hasNaN")
def _reduce(c):
    n = c.comps[-1][0]
    A = val(c, 0)
    if n == "sum":
        return c.ret(smt.msum(A))
    if n == "squaredNorm":
        return c.ret(smt.mdot(A, A))
    if n == "norm":
        return c.ret(c.ex.mathfn(c.st, "sqrt", [smt.mdot(A, A)]))
    if n == "trace":
        return c.ret(smt.msum(smt.mdiag(A)))
    if n == "mean":
        return c.ret(smt.msum(A) / z3.ToReal(rows(A) * cols(A)))
    if n in ("minCoeff", "maxCoeff") and len(c.args) == 1:
        need(c, "not empty", z3.And(rows(A) > 0, cols(A) > 0))
        m = smt.uf("m_" + n, MAT, REAL)(A)
        i, j = z3.Ints("bi bj")
        i0, j0 = z3.Int(fresh_name("mi")), z3.Int(fresh_name("mj"))
        inr = lambda i, j: z3.And(i >= 0, i < rows(A), j >= 0, j < cols(A))
        c.st.assume(z3.And(inr(i0, j0), m == at(A, i0, j0)))
        c.st.assume(z3.ForAll([i, j], z3.Implies(inr(i, j), m <= at(A, i, j) if n == "minCoeff" else m >= at(A, i, j)), patterns=[at(A, i, j)]))
        return c.ret(m)
    if n == "allFinite":
        return c.ret(z3.BoolVal(True))
    if n == "hasNaN":
        return c.ret(z3.BoolVal(False))
    f = smt.uf("m_" + n, MAT, REAL)
    return c.ret(f(A))


@method("dot")
def _dot(c):
    A, B = val(c, 0), val(c, 1)
    same_dims(c, A, B)
    return c.ret(smt.mdot(A, B))


@method("inverse", "cwiseInverse")
def _inverse(c):
    t = this_t(c)
    A = val(c, 0)
    if c.comps[-1][0] == "cwiseInverse" or is_diag(t) or c.comps[-2][0] == "ArrayBase":
        return out(c, smt.mcinv(A))
    need(c, "square", rows(A) == cols(A))
    return out(c, smt.minv(A))


@method("log", "exp", "sqrt", "cwiseSqrt", "abs", "cwiseAbs", "square", "abs2", "cwiseAbs2")
def _cw(c):
    n = c.comps[-1][0].replace("cwise", "").lower()
    A = val(c, 0)
    if n in ("square", "abs2"):
        return out(c, smt.mcmul(A, A))
    return out(c, smt.cwise(n)(A))
