"""Matrix algebra: normal forms of products and sums of matrices (non-commutative ring with transpose and inverse), emitted as
ground instances "conforming sizes => the term and its normal form agree at every position inside the matrix".

The laws used: associativity, distributivity over sums and scalars, (AB)' = B'A', (A')' = A, the identity matrix is neutral,
inv(X) X = X inv(X) = I (X invertible where its inverse is used), a diagonal matrix is symmetric, plus the rewriting rules a
specification states (each of them an assumed fact about a library, or an obligation proved separately).
"""
import z3
import smt
from smt import rows, cols, at
from trees import *

L_ = smt.uf("ldlt_L", MAT, MAT)         # unit lower triangular factor
D_ = smt.uf("ldlt_D", MAT, MAT)         # diagonal, as a vector
P_ = smt.uf("ldlt_P", MAT, MAT)         # permutation
SD_ = smt.uf("ldlt_sqrtD", MAT, MAT)    # entrywise square root of D (0 where D is not positive)
ID_ = smt.uf("ldlt_isqrtD", MAT, MAT)   # entrywise inverse square root of D (0 where D is not positive)
SYM = smt.uf("sym_lower", MAT, MAT)     # symmetric matrix with the same lower triangle
QM_ = smt.uf("qr_matrix", MAT, MAT)     # packed Householder matrix of a column pivoted QR
QP_ = smt.uf("qr_P", MAT, MAT)          # its column permutation

_i, _j = z3.Ints("ri rj")
_F = z3.Const("rF", MAT)


def inside(t, i, j):
    return z3.And(i >= 0, j >= 0, i < rows(t), j < cols(t))


def meq(a, b):
    """same size and same entries"""
    return z3.And(rows(a) == rows(b), cols(a) == cols(b),
                  z3.ForAll([_i, _j], z3.Implies(inside(a, _i, _j), at(a, _i, _j) == at(b, _i, _j)), patterns=[at(a, _i, _j)]))


def ldlt_facts(F):
    """sizes and entries of the factors of F"""
    d, s, r, n = D_(F), SD_(F), ID_(F), rows(F)
    e = at(d, _i, z3.IntVal(0))
    out = [cols(F) == n]
    for m, w in ((L_(F), n), (P_(F), n), (d, 1), (s, 1), (r, 1)):
        out += [rows(m) == n, cols(m) == w]
    out.append(z3.ForAll([_i], z3.Implies(z3.And(_i >= 0, _i < n), z3.If(e > 0, z3.And(
        at(s, _i, z3.IntVal(0)) > 0, at(s, _i, z3.IntVal(0)) * at(s, _i, z3.IntVal(0)) == e,
        at(s, _i, z3.IntVal(0)) == smt.fn_sqrt(e), at(r, _i, z3.IntVal(0)) == 1 / smt.fn_sqrt(e)),
        z3.And(at(s, _i, z3.IntVal(0)) == 0, at(r, _i, z3.IntVal(0)) == 0))), patterns=[at(s, _i, z3.IntVal(0)), at(r, _i, z3.IntVal(0))]))
    return out


class Ring:
    def __init__(self):
        self.rules = []         # ([(atom id, transposed)], z3 term)
        self.expand = {}        # atom id -> z3 term
        self.alias = {}         # term id -> representative (argument of an inverse, factored matrix)
        self.sym = set()        # symmetric atoms
        self.keep = []          # keeps terms alive (ids stay valid)
        self.pd = {}            # factored matrices

    def atom(self, t):
        self.keep.append(t)
        return t.get_id()

    def same(self, a, b):
        """inverses and factorisations of a are those of b (an obligation meq(a, b) of the caller)"""
        self.alias[self.atom(a)] = b
        self.keep.append(b)

    def symmetric(self, *ts):
        for t in ts:
            self.sym.add(self.atom(t))
            self.sym.add(self.atom(smt.minv(t)))

    def define(self, t, e):
        """t is equal to e (stated by the caller)"""
        self.expand[self.atom(t)] = e
        self.keep.append(e)

    def rule(self, lhs, rhs):
        self.rules.append(([(self.atom(t), tr) for t, tr in lhs], rhs))

    def rep(self, t, g=None):
        """representative of the argument of an inverse or of a factorisation"""
        while True:
            if z3.is_app(t) and t.decl().name() == "sym_lower":
                if g is not None:
                    g.append(t == t.children()[0])      # the matrix is symmetric
                t = t.children()[0]
            elif t.get_id() in self.alias:
                t = self.alias[t.get_id()]
            else:
                return t

    def factored(self, A):
        """A is symmetric positive definite and has been factored: A = P' L D L' P with D > 0"""
        A = self.rep(A)
        if A.get_id() in self.pd:
            return
        self.pd[self.atom(A)] = A
        self.symmetric(A)
        L, P, S, R = L_(A), P_(A), smt.mdiagm(SD_(A)), smt.mdiagm(ID_(A))
        Li, n = smt.minv(L), rows(A)
        I = smt.mid(n, n)
        for a, b in (((P, False), (P, True)), ((P, True), (P, False)), ((S, False), (R, False)), ((R, False), (S, False))):
            self.rule([a, b], I)
        T = smt.mtr
        self.expand[self.atom(smt.mdiagm(D_(A)))] = smt.mmul(S, S)
        self.expand[self.atom(A)] = smt.mmul(T(P), smt.mmul(L, smt.mmul(S, smt.mmul(S, smt.mmul(T(L), P)))))
        self.expand[self.atom(smt.minv(A))] = smt.mmul(T(P), smt.mmul(T(Li), smt.mmul(R, smt.mmul(R, smt.mmul(Li, P)))))

    # -------------------------------------------------------------- normal forms
    def nf(self, t, g):
        """polynomial {word: coefficient}; conformity conditions go to g"""
        n = t.decl().name() if z3.is_app(t) else ""
        ch = t.children() if z3.is_app(t) else []
        if n == "madd" or n == "msub":
            a, b = self.nf(ch[0], g), self.nf(ch[1], g)
            g.append(z3.And(rows(ch[0]) == rows(ch[1]), cols(ch[0]) == cols(ch[1])))
            return self.plus(a, b, 1 if n == "madd" else -1)
        if n == "mneg":
            return self.plus({}, self.nf(ch[0], g), -1)
        if n == "mscale":
            a = self.nf(ch[1], g)
            return {w: z3.simplify(ch[0] * c, som=True) for w, c in a.items()}
        if n == "mmul":
            g.append(cols(ch[0]) == rows(ch[1]))
            return self.times(self.nf(ch[0], g), self.nf(ch[1], g), g)
        if n == "mtr":
            a = self.nf(ch[0], g)
            return {tuple((i, x, (not tr) and i not in self.sym) for i, x, tr in reversed(w)): c for w, c in a.items()}
        if n == "mid" and ch[0].eq(ch[1]):
            return {(): z3.RealVal(1)}
        if n == "mid":
            g.append(ch[0] == ch[1])
            return {(): z3.RealVal(1)}
        if n == "sym_lower":
            r = self.rep(t, g)
            return self.nf(r, g) if not r.eq(t) else self.leaf(t, g)
        if n == "minv":
            a = self.rep(ch[0], g)
            r = smt.mtr(smt.minv(a.children()[0])) if z3.is_app(a) and a.decl().name() == "mtr" else smt.minv(a)
            if not r.eq(t):
                return self.nf(r, g)
        if n.startswith("ldlt_"):
            r = t.decl()(self.rep(ch[0], g))
            if not r.eq(t):
                return self.nf(r, g)
        if n == "mdiagm" and z3.is_app(ch[0]) and ch[0].decl().name().startswith("ldlt_"):
            r = smt.mdiagm(ch[0].decl()(self.rep(ch[0].children()[0], g)))
            if not r.eq(t):
                return self.nf(r, g)
        return self.leaf(t, g)

    def leaf(self, t, g):
        r = self.rep(t, g)
        if not r.eq(t):
            return self.nf(r, g)
        i = self.atom(t)
        if z3.is_app(t) and t.decl().name() == "mdiagm":
            self.sym.add(i)
        if i in self.expand:
            return self.nf(self.expand[i], g)
        return self.reduce({((i, t, False),): z3.RealVal(1)}, g)

    def plus(self, a, b, s):
        o = dict(a)
        for w, c in b.items():
            c = z3.simplify((o[w] if w in o else z3.RealVal(0)) + s * c, som=True)
            if z3.is_rational_value(c) and c.as_fraction() == 0:
                o.pop(w, None)
            else:
                o[w] = c
        return o

    def times(self, a, b, g):
        o = {}
        for w1, c1 in a.items():
            for w2, c2 in b.items():
                o = self.plus(o, self.reduce({w1 + w2: z3.simplify(c1 * c2, som=True)}, g), 1)
        return o

    def reduce(self, p, g):
        out = {}
        for w, c in p.items():
            r = self.step(w, g)
            if r is None:
                out = self.plus(out, {w: c}, 1)
            else:
                out = self.plus(out, {w2: z3.simplify(c * c2, som=True) for w2, c2 in r.items()}, 1)
        return out

    def step(self, w, g):
        """one rewriting step anywhere in the word, fully reduced result"""
        for k in range(len(w)):
            if k + 1 < len(w):
                (i, x, tx), (j, y, ty) = w[k], w[k + 1]
                if tx == ty or i in self.sym or j in self.sym:
                    inv = lambda u, q: z3.is_app(u) and u.decl().name() == "minv" and u.children()[0].eq(q)
                    if inv(x, y) or inv(y, x):
                        return self.join(w[:k], {(): z3.RealVal(1)}, w[k + 2:], g)
            for lhs, rhs in self.rules:
                n = len(lhs)
                if k + n <= len(w) and all(w[k + q][0] == lhs[q][0] and w[k + q][2] == lhs[q][1] for q in range(n)):
                    return self.join(w[:k], self.nf(rhs, g), w[k + n:], g)
        return None

    def join(self, a, p, b, g):
        return self.reduce({a + m + b: c for m, c in p.items()}, g)

    def build(self, p, like):
        """the term of a normal form"""
        r = None
        for w in sorted(p, key=lambda w: [(x.sexpr(), t) for _, x, t in w]):
            m = None
            for _, x, tr in reversed(w):
                y = smt.mtr(x) if tr else x
                m = y if m is None else smt.mmul(y, m)
            if m is None:
                m = smt.mid(rows(like), rows(like))
            c = p[w]
            if not (z3.is_rational_value(c) and c.as_fraction() == 1):
                m = smt.mscale(c, m)
            r = m if r is None else smt.madd(r, m)
        return r if r is not None else smt.mconst(rows(like), cols(like), z3.RealVal(0))

    def canon(self, t):
        g = []
        return self.build(self.nf(t, g), t), g

    def fact(self, t):
        """agreement of t with its normal form"""
        c, g = self.canon(t)
        if c.eq(t) and not self.canon(smt.mtr(t))[0].eq(c):
            return []
        seen, gs = set(), []
        for x in g:
            x = z3.simplify(x)
            if not z3.is_true(x) and x.get_id() not in seen:
                seen.add(x.get_id())
                gs.append(x)
        self.keep.append(c)
        if not gs:
            gs = [z3.BoolVal(True)]
        out = [z3.Implies(z3.And(gs), z3.And(rows(t) == rows(c), cols(t) == cols(c),
               z3.ForAll([_i, _j], z3.Implies(inside(t, _i, _j), at(t, _i, _j) == at(c, _i, _j)), patterns=[at(t, _i, _j)])))]
        r = self.canon(smt.mtr(t))[0]
        if r.eq(c):             # a symmetric product
            out.append(z3.Implies(z3.And(gs), z3.ForAll([_i, _j], z3.Implies(inside(t, _i, _j), at(t, _i, _j) == at(t, _j, _i)), patterns=[at(t, _i, _j)])))
        return out


RINGOPS = {"madd", "msub", "mneg", "mscale", "mmul", "mtr"}


def atoms(exprs):
    """matrices that products and sums in the formulas are made of: leaves of ring terms, arguments of inverses"""
    out, seen = {}, set()

    def walk(e, inring):
        if (e.get_id(), inring) in seen:
            return
        seen.add((e.get_id(), inring))
        if z3.is_quantifier(e):
            return walk(e.body(), False)
        if not z3.is_app(e):
            return
        n = e.decl().name()
        m = e.sort() == MAT
        if m and n in ("minv", "sym_lower"):
            a = e.children()[0]
            if ground(a) and a.decl().name() not in ("minv", "sym_lower"):
                out[a.get_id()] = a
            walk(a, True)
            return
        if m and inring and n not in RINGOPS and ground(e):
            out[e.get_id()] = e
        for c in e.children():
            walk(c, m and n in RINGOPS)
    for e in exprs:
        walk(e, False)
    return list(out.values())


def align(p, ring, mats, exprs, timeout=1500):
    """identifies the matrices of the code with those of the specification: each identification is proved here and recorded as an
    obligation of its own"""
    todo = [t for t in atoms(exprs) if not any(t.eq(s) for s in mats.values())]
    progress = True
    while progress:
        progress = False
        for t in list(todo):
            for name, s in mats.items():
                g = meq(t, s)
                if smt.prove(p.st.facts + instances(ring, p.st.facts + [g]), g, timeout=timeout, full=False)[0] == "proved":
                    p.algebra("%s is %s" % (t.decl().name() if t.children() else "a matrix", name), ring, g)
                    ring.same(t, s)
                    todo.remove(t)
                    progress = True
                    break


TOPS = {"mmul", "mtr", "minv", "sym_lower"}


def products(exprs):
    """maximal ring terms with a product in them, and factored matrices"""
    out, fac, seen = [], [], set()

    def has(t):
        return "mmul" in smt.symnames(t)

    def walk(e, inring):
        k = (e.get_id(), inring)
        if k in seen:
            return
        seen.add(k)
        if z3.is_quantifier(e):
            walk(e.body(), False)
            return
        if not z3.is_app(e):
            return
        n = e.decl().name()
        if n.startswith("ldlt_") and ground(e.children()[0]):
            fac.append(e.children()[0])
        r = e.sort() == MAT and n in ("mmul", "mtr", "madd", "msub", "mneg", "mscale")
        if r and not inring and n in ("mmul", "mtr") and has(e) and ground(e):
            out.append(e)
        if n == "minv" and not inring and ground(e):
            out.append(e)
        if n == "mcolsum" and ground(e) and z3.is_app(e.children()[0]) and e.children()[0].decl().name() == "mcmul":
            a, b = e.children()[0].children()      # column sums of an entrywise product are the diagonal of a product
            out.append(smt.mmul(smt.mtr(a), b))
        if n == "mgcols" and ground(e.children()[0]):
            T = e.children()[0]         # products of listed columns are entries of the product of the matrices
            out.append(smt.mmul(smt.mtr(T), T))
        for c in e.children():
            walk(c, inring and r or (r and n in ("mmul", "mtr")))
    for e in exprs:
        walk(e, False)
    return out, fac


_gr = {}


def ground(e):
    k = e.get_id()
    if k not in _gr:
        seen, stack, ok = set(), [e], True
        while stack and ok:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_var(x) or z3.is_quantifier(x):
                ok = False
            elif z3.is_app(x):
                stack += x.children()
        _gr[k] = (e, ok)
    return _gr[k][1]


def instances(ring, exprs):
    """agreement of every product occurring in the formulas with its normal form"""
    ts, fac = products(exprs)
    out = []
    for F in {f.get_id(): f for f in fac}.values():
        out += ldlt_facts(ring.rep(F))
    done = set()
    for t in ts:
        if t.get_id() not in done:
            done.add(t.get_id())
            out += ring.fact(t)
    # factors of a factored matrix that occur in the normal forms only
    _, fac2 = products(out)
    known = {ring.rep(f).get_id() for f in fac}
    for F in {f.get_id(): f for f in fac2}.values():
        if ring.rep(F).get_id() not in known:
            known.add(ring.rep(F).get_id())
            out += ldlt_facts(ring.rep(F))
    return out
