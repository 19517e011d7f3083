"""C03: closed-form leave-one-out and leave-group-out equal conditioning on everything else."""
from speclib import *
from c10 import mat_is, vec_eq, at, I_, J_, mean, cov, valid_marginal, valid_joint
from c12 import block_of, MAXLEN
from ring import SYM, Ring, instances, ldlt_facts, meq
from ring import align as ring_align
from smt import mmul, mtr, minv, madd, msub
import contracts_eigen as CE
import cxx

MOD = "cv"


def leafm(e):
    return Leaf("mat", e)


def inverse_diagonal(c):
    """contract proved in C12"""
    from c12 import factor_of
    F = factor_of(c)
    r = z3.Const(fresh_name("diagonal"), MAT)
    c.st.assume(vec_eq(r, smt.rows(F), lambda i: at(minv(F), i, i)))
    return c.ret(leafm(r))


DIAG = {"Eigen::SerializableLDLT::inverse_diagonal": inverse_diagonal}


def positive(F):
    """the diagonal of the inverse of a positive definite matrix"""
    return forall(I_, implies(rng(I_, 0, smt.rows(F)), at(minv(F), I_, I_) > 0), at(minv(F), I_, I_))


def factor(v, F):
    for x in ldlt_facts(F):
        v.requires(x)
    R = Ring()
    R.symmetric(F)
    return R


@spec("C03", MOD, "loo_variance", contracts=DIAG)
def loo_variance(v):
    F = v.a(0)
    factor(v, F)
    v.requires(positive(F))
    for p in v.run():
        p.ensure("inverse of the inverse's diagonal", vec_eq(p.ret, smt.rows(F), lambda i: 1 / at(minv(F), i, i)))


@spec("C03", MOD, "loo_variance_dense", contracts=DIAG)
def loo_variance_dense(v):
    A = v.a(0)
    v.requires(smt.rows(A) == smt.cols(A))
    v.requires(forall([I_, J_], implies(z3.And(rng(I_, 0, smt.rows(A)), rng(J_, 0, smt.rows(A))), at(A, I_, J_) == at(A, J_, I_)), at(A, I_, J_)))
    v.requires(positive(A))
    R = Ring()
    R.symmetric(A)
    for p in v.run():
        ring_align(p, R, {"the covariance": A}, [p.ret] + p.st.facts)
        p.algebra("inverse of the inverse's diagonal", R, vec_eq(p.ret, smt.rows(A), lambda i: 1 / at(minv(A), i, i)))


def sym_entries(v, A):
    v.requires(z3.And(smt.rows(A) == smt.cols(A), forall([I_, J_], implies(z3.And(rng(I_, 0, smt.rows(A)), rng(J_, 0, smt.rows(A))), at(A, I_, J_) == at(A, J_, I_)), at(A, I_, J_))))


def noisy(v, P, y):
    """noisy covariance and deviation of the truth from the prior"""
    n = smt.rows(mean(P))
    v.requires(z3.And(valid_joint(P), valid_marginal(y), smt.rows(mean(y)) == n))
    sym_entries(v, cov(P))
    N = z3.Const("spec_N", MAT)
    v.requires(mat_is(N, n, n, lambda i, j: at(cov(P), i, j) + z3.If(i == j, at(cov(y), i), z3.RealVal(0))))
    return n, N, msub(mean(y), mean(P))


@spec("C03", MOD, "loo", contracts=DIAG)
def loo(v):
    P, y = v.pre[0], v.pre[1]
    n, N, d = noisy(v, P, y)
    v.requires(positive(N))
    R = Ring()
    R.symmetric(N)
    w = mmul(minv(N), d)
    for p in v.run():
        ring_align(p, R, {"the noisy covariance": N}, [mean(p.ret), cov(p.ret)] + p.st.facts)
        p.algebra("variance", R, vec_eq(cov(p.ret), n, lambda i: 1 / at(minv(N), i, i)))
        p.algebra("mean", R, vec_eq(mean(p.ret), n, lambda i: at(mean(y), i) - at(w, i) * (1 / at(minv(N), i, i))))


def held(what):
    @spec("C03", MOD, "held_" + what, contracts=DIAG)
    def s(v):
        B, y, u = v.a(0), v.a(1), v.a(2)
        sym_entries(v, B)
        n = smt.rows(B)
        v.requires(z3.And(smt.rows(y) == n, smt.rows(u) == n))
        R = Ring()
        R.symmetric(B)
        for p in v.run():
            out = [p.ret] if what == "mean" else [mean(p.ret), cov(p.ret)]
            ring_align(p, R, {"the block": B}, out + p.st.facts)
            p.algebra("mean", R, vec_eq(out[0] if what == "mean" else mean(p.ret), n, lambda i: at(y, i) - at(mmul(minv(B), u), i)))
            if what == "marginal":
                p.algebra("variance", R, vec_eq(cov(p.ret), n, lambda i: at(minv(B), i, i)))
            if what == "joint":
                p.algebra("covariance", R, mat_is(cov(p.ret), n, n, lambda i, j: at(minv(B), i, j)))


for w in ("mean", "marginal", "joint"):
    held(w)


# named results of functions under contract (each is deterministic), their meaning is stated in `meanings`
ARR = z3.ArraySort(INT, INT)
BLK = smt.uf("block_of_inverse", MAT, INT, ARR, MAT)
PICK = smt.uf("picked_entries", MAT, INT, ARR, MAT)
HM = smt.uf("held_out_mean", MAT, MAT, MAT, MAT)
HV = smt.uf("held_out_variance", MAT, MAT, MAT, MAT)
HC = smt.uf("held_out_covariance", MAT, MAT, MAT, MAT)


def blocks(c):
    """inverse_blocks, proved in C12"""
    from c12 import factor_of
    ex, st = c.ex, c.st
    F = factor_of(c)
    b = ex.node_at(st, c.args[1])
    ix = sel(b.el, J_)
    ex.oblige(st, "block indices in range", forall([J_, J], implies(z3.And(rng(J_, 0, b.n.e), rng(J, 0, ix.n.e)), rng(sel(ix.el, J).e, 0, smt.rows(F))), sel(ix.el, J).e), "pre")
    r = ex.fresh(st, cxx.parse_type("std::vector<Eigen::Matrix<double, -1, -1>>"), "blocks")
    e, ix = sel(r.el, J), sel(b.el, J)
    st.assume(r.n.e == b.n.e)
    st.assume(forall(J, implies(rng(J, 0, b.n.e), e.e == BLK(F, ix.n.e, ix.el.e)), e.e))
    return c.ret(r)


def pick(c):
    from subsets import in_range
    if len(c.params) != 2 or "Matrix" not in c.params[0]:
        return NotImplemented
    A, ix = CE.val(c, 0), c.ex.node_at(c.st, c.args[1])
    in_range(c, ix, smt.rows(A))
    return c.ret(leafm(PICK(A, ix.n.e, ix.el.e)))


def held_out(c):
    B, y, u = (CE.val(c, i) for i in range(3))
    c.ex.oblige(c.st, "sizes of the held out block", z3.And(smt.rows(B) == smt.rows(y), smt.rows(y) == smt.rows(u)), "pre")
    if "Joint" in c.params[3] or "Marginal" in c.params[3]:
        r = c.ex.fresh(c.st, cxx.parse_type("albatross::%sDistribution" % ("Joint" if "Joint" in c.params[3] else "Marginal")), "held_out")
        c.st.assume(z3.And(r.d[0].e == HM(B, y, u), r.d[64].e == (HC if "Joint" in c.params[3] else HV)(B, y, u)))
        return c.ret(r)
    return c.ret(leafm(HM(B, y, u)))


HELD = {"Eigen::SerializableLDLT::inverse_blocks": blocks, "albatross::subset": pick, "albatross::details::held_out_prediction": held_out}


KK = z3.Int("qk")


def dom(m, k):
    return z3.Select(m.dom.e, k)


def meanings(F, *vs):
    """what the named results are: blocks of the inverse, listed entries, held out predictions (held_mean, held_marginal, held_joint)"""
    n, a = z3.Int("q_n"), z3.Const("q_a", ARR)
    B, y, u = (z3.Const("q_" + x, MAT) for x in "Byu")
    i, j = (lambda t: z3.Select(a, t)), None
    b = BLK(F, n, a)
    out = [forall([n, a], implies(n >= 0, mat_is(b, n, n, lambda p, q: at(minv(F), i(p), i(q)))), b)]
    for x in vs:
        t = PICK(x, n, a)
        out.append(forall([n, a], implies(n >= 0, vec_eq(t, n, lambda p: at(x, i(p)))), t))
    sq = z3.And(smt.rows(B) == smt.cols(B), smt.rows(y) == smt.rows(B), smt.rows(u) == smt.rows(B))
    for f, e in ((HM, lambda p: at(y, p) - at(mmul(minv(B), u), p)), (HV, lambda p: at(minv(B), p, p))):
        out.append(forall([B, y, u], implies(sq, vec_eq(f(B, y, u), smt.rows(y), e)), f(B, y, u)))
    out.append(forall([B, y, u], implies(sq, mat_is(HC(B, y, u), smt.rows(y), smt.rows(y), lambda p, q: at(minv(B), p, q))), HC(B, y, u)))
    return out


class Named:
    """the named results for the groups g with factored covariance F, values y and information w"""
    def __init__(self, g, F, y, w):
        self.g, self.F, self.y, self.w = g, F, y, w

    def n(self, k):
        return sel(self.g.val, k).n.e

    def ix(self, k):
        return sel(self.g.val, k).el.e

    def block(self, k):
        return BLK(self.F, self.n(k), self.ix(k))

    def held(self, f, k):
        return f(self.block(k), PICK(self.y, self.n(k), self.ix(k)), PICK(self.w, self.n(k), self.ix(k)))

    def value(self, d, k, fs):
        """the entries of dictionary d at k are what they should be"""
        ls = [x.e for x in leaves(sel(d.val, k)) if x.kind == "mat"]
        return z3.And([x == self.held(f, k) for x, f in zip(ls, fs)])


class Groups(Named):
    """the groups of indices, their blocks and entries"""
    def __init__(self, v, g, F, y, w):
        super().__init__(g, F, y, w)
        saturate(v, g)
        n, e = self.n(KK), lambda j: z3.Select(self.ix(KK), j)
        v.requires(forall(KK, z3.And(n >= 0, n < MAXLEN), n))
        v.requires(forall([KK, J], implies(z3.And(dom(g, KK), rng(J, 0, n)), rng(e(J), 0, smt.rows(F))), e(J)))

        for x in meanings(F, y, w):
            v.requires(x)

    def template(self, fs):
        A = self.g.dom.e

        def t(ctx):
            out = []
            for vn, vg in ctx.of(Vec):
                if isinstance(vg(ctx.entry).el, Vec):
                    out.append(("index lists in " + vn, lambda s, vg=vg: forall(J, implies(rng(J, 0, vg(s).n.e), z3.And(
                        sel(vg(s).el, J).n.e == self.n(nth(A, J)), sel(vg(s).el, J).el.e == self.ix(nth(A, J)))), [sel(vg(s).el, J).n.e, sel(vg(s).el, J).el.e])))
            for dn, dg in ctx.of(Dict):
                ms = [x for x in leaves(dg(ctx.entry).val) if x.kind == "mat"]
                if not ms:
                    continue
                for n, g in list(ctx.of(Iter)):
                    pos = lambda s, g=g: g(s).pos
                    for nm, f in (("blocks", lambda d: sel(d.val, KK).e == self.block(KK) if isinstance(d.val, Leaf) else z3.BoolVal(True)), ("held out", lambda d: self.value(d, KK, fs))):
                        out.append(("%s so far in %s %s" % (nm, dn, n), lambda s, dg=dg, pos=pos, f=f: z3.And(pos(s) >= 0, pos(s) <= size(A), forall(KK, z3.And(
                            dom(dg(s), KK) == z3.And(dom(self.g, KK), idx(A, KK) < pos(s)), implies(dom(dg(s), KK), f(dg(s)))), dom(dg(s), KK)))))
            return out
        return t


def closed_form(p, G, r, fs):
    """the prediction of a group is y - P^-1 (A^-1 d) with covariance P^-1, P the group's block of the inverse A^-1"""
    k = z3.Int("group_k")
    ls = [x.e for x in leaves(sel(r.val, k)) if x.kind == "mat"]
    n, B, ix = G.n(k), G.block(k), lambda i: z3.Select(G.ix(k), i)
    u = PICK(G.w, n, G.ix(k))
    ok = lambda g: implies(dom(G.g, k), g)
    p.ensure("the group's block", ok(mat_is(B, n, n, lambda i, j: at(minv(G.F), ix(i), ix(j)))))
    p.ensure("the group's entries", ok(vec_eq(u, n, lambda i: at(G.w, ix(i)))))
    p.ensure("mean of each group", ok(vec_eq(ls[0], n, lambda i: at(G.y, ix(i)) - at(mmul(minv(B), u), i))))
    if fs[1:] == [HV]:
        p.ensure("variance of each group", ok(vec_eq(ls[1], n, lambda i: at(minv(B), i, i))))
    if fs[1:] == [HC]:
        p.ensure("covariance of each group", ok(mat_is(ls[1], n, n, lambda i, j: at(minv(B), i, j))))


def predictions(what, fs):
    @spec("C03", MOD, "predictions_" + what, contracts=HELD)
    def s(v):
        F, y, w = v.a(0), v.a(1), v.a(2)
        factor(v, F)
        v.requires(z3.And(smt.rows(y) == smt.rows(F), smt.rows(w) == smt.rows(F)))
        G = Groups(v, v.pre[3], F, y, w)
        v.template(G.template(fs))
        for p in v.run():
            p.ensure("exactly the requested groups", forall(KK, dom(p.ret, KK) == dom(G.g, KK), dom(p.ret, KK)))
            closed_form(p, G, p.ret, fs)


predictions("mean", [HM])
predictions("marginal", [HM, HV])
predictions("joint", [HM, HC])


KINDS = {"mean": [HM], "marginal": [HM, HV], "joint": [HM, HC]}


def held_out_predictions(what, got):
    """contract proved in predictions_mean / marginal / joint"""
    def h(c):
        F, y, w = (CE.val(c, i) for i in range(3))
        g = c.ex.node_at(c.st, c.args[3])
        while not isinstance(g, Dict):
            g = g.d[min(g.d)]
        G = Named(g, F, y, w)
        c.ex.oblige(c.st, "sizes", z3.And(smt.rows(y) == smt.rows(F), smt.rows(w) == smt.rows(F)), "pre")
        e = z3.Select(G.ix(KK), J)
        c.ex.oblige(c.st, "group indices in range", forall([KK, J], implies(z3.And(dom(g, KK), rng(J, 0, G.n(KK))), rng(e, 0, smt.rows(F))), e), "pre")
        t = {"mean": "Eigen::Matrix<double, -1, 1>", "marginal": "albatross::MarginalDistribution", "joint": "albatross::JointDistribution"}[what]
        r = c.ex.fresh(c.st, cxx.parse_type("std::map<int, %s>" % t), "held_out")
        c.st.assume(forall(KK, z3.And(dom(r, KK) == dom(g, KK), implies(dom(g, KK), G.value(r, KK, KINDS[what]))), [dom(r, KK), next(leaves(sel(r.val, KK))).e]))
        got.append(G)
        return c.ret(r)
    return {"albatross::details::held_out_predictions": h}


def all_groups(p, R, C, g, r, what, N, y, w):
    """C: what was handed to held_out_predictions; N, y, w: the noisy covariance, the truth and the solution of the noisy system"""
    p.ensure("exactly the requested groups", forall(KK, dom(r, KK) == dom(g, KK), dom(r, KK)))
    p.ensure("factored is the noisy covariance", meq(C.F, N))
    p.algebra("information", R, meq(C.w, w))
    p.ensure("values are the truth's", meq(C.y, y))
    p.assume(z3.And(meanings(C.F, C.y, C.w)))
    k = z3.Int("group_k")
    ls = [x.e for x in leaves(sel(r.val, k)) if x.kind == "mat"]
    W = Named(g, N, y, w)
    n, ix = W.n(k), lambda i: z3.Select(W.ix(k), i)
    B, u = C.block(k), PICK(C.w, C.n(k), C.ix(k))
    ok = lambda x: implies(dom(g, k), x)
    p.algebra("the group's block", R, ok(mat_is(B, n, n, lambda i, j: at(minv(N), ix(i), ix(j)))))
    p.algebra("the group's entries", R, ok(vec_eq(u, n, lambda i: at(w, ix(i)))))
    p.ensure("mean of each group", ok(vec_eq(ls[0], n, lambda i: at(y, ix(i)) - at(mmul(minv(B), u), i))))
    if what == "marginal":
        p.ensure("variance of each group", ok(vec_eq(ls[1], n, lambda i: at(minv(B), i, i))))
    if what == "joint":
        p.ensure("covariance of each group", ok(mat_is(ls[1], n, n, lambda i, j: at(minv(B), i, j))))


def logo(what):
    got = []

    @spec("C03", MOD, "logo_" + what, contracts=held_out_predictions(what, got))
    def s(v):
        got.clear()
        P, y, g = v.pre
        n, N, d = noisy(v, P, y)
        w = mmul(minv(N), d)
        Groups(v, g, N, mean(y), w)
        R = Ring()
        R.symmetric(N)
        for p in v.run():
            C = got[-1]
            ring_align(p, R, {"the noisy covariance": N}, [C.F, C.w])
            all_groups(p, R, C, g, p.ret, what, N, mean(y), w)


def cross_validation(what):
    import c01
    got = []

    @spec("C03", "gp", "cv_" + what, contracts=dict(c01.CALLS, **held_out_predictions(what, got)))
    def s(v):
        got.clear()
        x, y = c01.dataset(v.pre[1])
        g = v.pre[2]
        v.template(c01.converted(x))
        N, M = c01.training(v, x, y)
        w = mmul(minv(N), msub(mean(y), M))
        Groups(v, g, N, mean(y), w)
        v.requires(x.n.e == smt.rows(mean(y)))
        R = Ring()
        R.symmetric(N)
        for p in v.run():
            C = got[-1]
            ring_align(p, R, {"the noisy covariance": N, "the training mean": M}, [C.F, C.w])
            all_groups(p, R, C, g, p.ret, what, N, mean(y), w)


for w in KINDS:
    logo(w)
    cross_validation(w)


@spec("C03", MOD, None, name="held out is conditional")
def conditional(v):
    """For a group g and the rest o, selected by matrices Eg and Eo, W the inverse of A: with P = W[g,g] and u = (W d)[g]
    P^-1 = A[g,g] - A[g,o] A[o,o]^-1 A[o,g] and P^-1 u = d[g] - A[g,o] A[o,o]^-1 d[o]"""
    A, Eg, Eo, P, Q, a, b, c, d, dg, do, u = (z3.Const("ho_" + n, MAT) for n in ("A", "Eg", "Eo", "P", "Q", "a", "b", "c", "d", "dg", "do", "u"))
    n, g, o = smt.rows(A), smt.cols(Eg), smt.cols(Eo)
    W, T = minv(A), mtr
    I = smt.mid
    sizes = [smt.cols(A) == n, smt.rows(Eg) == n, smt.rows(Eo) == n, smt.rows(d) == n, smt.cols(d) == 1]
    for m, r, w in ((P, g, g), (Q, g, o), (a, g, g), (b, g, o), (c, o, o), (dg, g, 1), (do, o, 1), (u, g, 1)):
        sizes += [smt.rows(m) == r, smt.cols(m) == w]

    def ring(**defs):
        R = Ring()
        R.symmetric(A, P, a, c)
        return R
    zero = smt.mconst(g, o, z3.RealVal(0))
    # the selection matrices of a partition, and the sub-matrices by them
    R1 = ring()
    R1.rule([(Eg, True), (Eg, False)], I(g, g))
    R1.rule([(Eo, True), (Eo, False)], I(o, o))
    R1.rule([(Eg, True), (Eo, False)], msub(zero, zero))
    R1.rule([(Eg, False), (Eg, True)], msub(I(n, n), mmul(Eo, T(Eo))))
    parts = {P: mmul(T(Eg), mmul(W, Eg)), Q: mmul(T(Eg), mmul(W, Eo)), a: mmul(T(Eg), mmul(A, Eg)), b: mmul(T(Eg), mmul(A, Eo)),
             c: mmul(T(Eo), mmul(A, Eo)), dg: mmul(T(Eg), d), do: mmul(T(Eo), d), u: mmul(T(Eg), mmul(W, d))}
    for m, e in parts.items():
        R1.define(m, e)

    def step(name, hyps, rings, terms, goal):
        fs = [f for R in rings for t in terms for f in R.fact(t)]
        v.ensure(name, sizes + hyps + fs + instances(rings[0], [goal]), goal)
        return goal
    h1 = step("upper block of W A = I", [], [R1], [], meq(I(g, g), madd(mmul(P, a), mmul(Q, T(b)))))
    h2 = step("off-diagonal block of W A = I", [], [R1], [], meq(mmul(Q, c), smt.mneg(mmul(P, b))))
    h3 = step("information of the group", [], [R1], [u], meq(u, madd(mmul(P, dg), mmul(Q, do))))
    R0, R2, R3 = ring(), ring(), ring()
    R2.rule([(Q, False), (c, False)], smt.mneg(mmul(P, b)))
    q = smt.mneg(mmul(P, mmul(b, minv(c))))
    X = mmul(mmul(Q, c), minv(c))
    e1 = step("Q = Q c c^-1", [], [R0], [X], meq(Q, X))
    h4 = step("Q = -P b c^-1", [h2, e1], [R2], [X], meq(Q, q))
    R3.define(Q, q)
    R4 = ring()
    R4.define(Q, q)
    R4.rule([(P, False), (a, False)], madd(I(g, g), mmul(P, mmul(b, mmul(minv(c), T(b))))))
    h5 = step("P a = I + P b c^-1 b'", [h1, h4], [R3], [mmul(Q, T(b))], meq(mmul(P, a), madd(I(g, g), mmul(P, mmul(b, mmul(minv(c), T(b)))))))
    S = msub(a, mmul(b, mmul(minv(c), T(b))))
    Y = mmul(minv(P), mmul(P, S))
    e2 = step("S = P^-1 P S", [], [R0], [Y], meq(S, Y))
    e3 = step("P^-1 P S = P^-1", [h4, h5], [R4], [Y], meq(Y, minv(P)))
    step("covariance of the conditional", [e2, e3], [R0], [], meq(S, minv(P)))
    R5 = ring()
    R5.define(Q, q)
    R5.define(u, madd(mmul(P, dg), mmul(Q, do)))
    step("mean of the conditional", [h3, h4], [R5], [mmul(minv(P), u)], meq(mmul(minv(P), u), msub(dg, mmul(b, mmul(minv(c), do)))))


@spec("C03", MOD, None, name="one held out")
def one(v):
    """the inverse of a 1 x 1 matrix is that of its entry"""
    P = z3.Const("one_P", MAT)
    z = z3.IntVal(0)
    R = Ring()
    pr = mmul(minv(P), P)
    law = at(pr, z, z) == at(minv(P), z, z) * at(P, z, z)      # a product of 1 x 1 matrices is the product of the entries
    v.ensure("inverse", [smt.rows(P) == 1, smt.cols(P) == 1, at(P, z, z) != 0, law] + R.fact(pr), at(minv(P), z, z) == 1 / at(P, z, z))
