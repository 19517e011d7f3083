"""Helpers shared by the property specifications: quantified goals and loop-invariant candidate families."""
import z3
import smt
from trees import *
from contracts_std import node_eq, mat_eq, shape_eq

nth, idx, size, _ = smt.ordfns(INT)
J = z3.Int("j")
J2 = z3.Int("j2")
K = z3.Int("k")


def implies(a, b):
    return z3.Implies(a, b)


def rng(j, lo, hi):
    return z3.And(j >= lo, j < hi)


def forall(vs, body, pat=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pat is not None:
        if not isinstance(pat, list):
            pat = [pat]
        pat = [q for q in pat if _pat_ok(q)]
        if pat:
            return z3.ForAll(list(vs), body, patterns=pat)
    return z3.ForAll(list(vs), body)


def _pat_ok(p):
    if isinstance(p, z3.PatternRef):
        return True
    st = [p]
    while st:
        e = st.pop()
        if z3.is_quantifier(e):
            return False
        if z3.is_app(e):
            if e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE,
                                   z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
                return False
            st.extend(e.children())
    return True


def is_sort(node, sort):
    return isinstance(node, Leaf) and node.e.sort() == sort


def leaf_eq_nodes(n, want):
    """equality of an element tree with a python description (z3 term, list in offset order, or node)"""
    if isinstance(want, Node):
        return node_eq(n, want)
    if isinstance(n, Leaf):
        if n.kind == "mat":
            return n.e == want
        if n.e.sort() != want.sort():
            raise Unsupported("element sort")
        return n.e == want
    if isinstance(n, Struct):
        ks = sorted(n.d)
        if not isinstance(want, (list, tuple)) or len(ks) != len(want):
            raise Unsupported("element shape")
        return z3.And([leaf_eq_nodes(n.d[k], w) for k, w in zip(ks, want)])
    raise Unsupported("element equality")


def vec_is(v, n, elfn, j=None):
    """v has length n and element j equals elfn(j)"""
    j = J if j is None else j
    e = sel(v.el, j)
    pat = next(leaves(e)).e
    return z3.And(v.n.e == n, forall(j, implies(rng(j, 0, n), leaf_eq_nodes(e, elfn(j))), pat))


def vec_prefix(elfn, j=None):
    """loop-invariant family: some modified vector holds the specified elements up to some position"""
    j = J if j is None else j

    def t(ctx):
        out = []
        for n, g in ctx.of(Vec):
            for pn, pg in ctx.ints():
                if pn == n + ".len":
                    continue

                def f(s, g=g, pg=pg):
                    v = g(s)
                    e = sel(v.el, j)
                    return z3.And(v.n.e == pg(s),
                                  forall(j, implies(rng(j, 0, pg(s)), leaf_eq_nodes(e, elfn(j))), next(leaves(e)).e))

                def f2(s, g=g, pg=pg):
                    v = g(s)
                    e = sel(v.el, j)
                    return forall(j, implies(rng(j, 0, pg(s)), leaf_eq_nodes(e, elfn(j))), next(leaves(e)).e)
                out.append(("prefix %s %s" % (n, pn), f))
                out.append(("filled %s %s" % (n, pn), f2))

            def f3(s, g=g):
                v = g(s)
                e = sel(v.el, j)
                return forall(j, implies(rng(j, 0, v.n.e), leaf_eq_nodes(e, elfn(j))), next(leaves(e)).e)
            out.append(("elements %s" % n, f3))
        return out
    return t


def iters_over(ctx, node):
    """positions of map/vector iterators over a given (unmodified) container node"""
    out = []
    for n, g in ctx.of(Iter):
        it = g(ctx.entry)
        try:
            c = ctx.ex.node_at(ctx.entry, it.c)
        except Unsupported:
            continue
        if type(c) is type(node):
            la, lb = list(leaves(c)), list(leaves(node))
            if len(la) == len(lb) and all(x.e.eq(y.e) for x, y in zip(la, lb)):
                out.append((n, lambda s, g=g: g(s).pos))
    return out


def saturate(v, *dicts):
    """instances of the ordered-dictionary axiom triggered by membership (consequences of the background theory)"""
    for d in dicts:
        if not isinstance(d, Dict):
            continue
        S = d.dom.e.sort().domain()
        nt, ix, sz, _ = smt.ordfns(S)
        k = z3.Const("qk", S)
        v.requires(z3.ForAll([k], implies(z3.Select(d.dom.e, k), z3.And(ix(d.dom.e, k) >= 0, ix(d.dom.e, k) < sz(d.dom.e),
                                                                        nt(d.dom.e, ix(d.dom.e, k)) == k)),
                             patterns=[z3.Select(d.dom.e, k)]))


# ------------------------------------------------------------------ recursively defined ghost functions
def fold(v, name, sort, base, step):
    """ghost function F over Int: F(0) = base, F(i) = step(i-1, F(i-1)) for i >= 1 (unfolded once per occurrence)"""
    f = z3.Function(fresh_name(name), INT, sort)
    g = z3.Function(fresh_name(name + "_"), INT, sort)
    i = z3.Int("fi")
    v.requires(f(z3.IntVal(0)) == base)
    v.requires(g(z3.IntVal(0)) == base)
    v.requires(z3.ForAll([i], z3.And(f(i) == g(i), implies(i >= 1, f(i) == step(i - 1, g(i - 1)))), patterns=[f(i)]))
    f.limited = g
    v.templates_fold = getattr(v, "templates_fold", []) + [f]
    return f


def count(v, name, pred):
    """ghost count of the positions below i satisfying pred, with its monotonicity lemma (induction checked below)"""
    f = fold(v, name, INT, z3.IntVal(0), lambda i, r: r + z3.If(pred(i), z3.IntVal(1), z3.IntVal(0)))
    g = f.limited
    i, j = z3.Ints("fi fj")
    v.requires(z3.ForAll([i, j], implies(z3.And(0 <= i, i <= j), z3.And(g(i) <= g(j), implies(z3.And(i < j, pred(i)), g(i) < g(j)))),
                         patterns=[z3.MultiPattern(g(i), g(j))]))
    v.requires(z3.ForAll([i], implies(0 <= i, z3.And(g(i) >= 0, g(i) <= i)), patterns=[g(i)]))
    # the two lemmas by induction on j: base and step obligations
    h = z3.Function(fresh_name(name + "L"), INT, INT)
    a, b = z3.Ints("ca cb")
    st = [h(0) == 0, h(b + 1) == h(b) + z3.If(pred(b), z3.IntVal(1), z3.IntVal(0)),
          h(a + 1) == h(a) + z3.If(pred(a), z3.IntVal(1), z3.IntVal(0))]
    P = lambda x, y: implies(z3.And(0 <= x, x <= y), z3.And(h(x) <= h(y), implies(z3.And(x < y, pred(x)), h(x) < h(y))))
    ob = v.ex.obls
    from exec import Obligation
    ob.append(Obligation(v.name + ":ghost count monotone (base)", [], P(a, a), "lemma", "lemma"))
    ob.append(Obligation(v.name + ":ghost count monotone (step)", st + [0 <= a, a <= b, P(a, b)], P(a, b + 1), "lemma", "lemma"))
    ob.append(Obligation(v.name + ":ghost count bounded (step)", st + [0 <= b, h(b) >= 0, h(b) <= b], z3.And(h(b + 1) >= 0, h(b + 1) <= b + 1), "lemma", "lemma"))
    return f


def prefix_sum(v, name, term):
    """ghost offsets off(i) = sum of term(j), j < i, of nonnegative terms, with monotonicity (induction checked below)"""
    f = fold(v, name, INT, z3.IntVal(0), lambda i, r: r + term(i))
    g = f.limited
    i, j = z3.Ints("fi fj")
    v.requires(z3.ForAll([i, j], implies(z3.And(0 <= i, i < j), z3.And(g(i) >= 0, g(i) + term(i) <= g(j))),
                         patterns=[z3.MultiPattern(g(i), g(j))]))
    v.requires(z3.ForAll([i], implies(0 <= i, g(i) >= 0), patterns=[g(i)]))
    h = z3.Function(fresh_name(name + "L"), INT, INT)
    t = z3.Function(fresh_name(name + "T"), INT, INT)
    a, b = z3.Ints("ca cb")
    st = [h(0) == 0, h(b + 1) == h(b) + t(b), h(a + 1) == h(a) + t(a), t(a) >= 0, t(b) >= 0]
    P = lambda x, y: implies(z3.And(0 <= x, x < y), h(x) + t(x) <= h(y))
    from exec import Obligation
    ob = v.ex.obls
    ob.append(Obligation(v.name + ":ghost sum monotone (base)", st, P(a, a + 1), "lemma", "lemma"))
    ob.append(Obligation(v.name + ":ghost sum monotone (step)", st + [0 <= a, a < b, P(a, b)], P(a, b + 1), "lemma", "lemma"))
    ob.append(Obligation(v.name + ":ghost sum nonnegative (step)", st + [0 <= b, h(b) >= 0], h(b + 1) >= 0, "lemma", "lemma"))
    return f


def near(a, b, eps="1e-9"):
    """equality up to the rounding of literal constants (both sides are exact real terms)"""
    e = z3.RealVal(eps)
    return z3.Or(a == b, z3.And(a - b <= e, b - a <= e))


# ------------------------------------------------------------------ spec registry
class Spec:
    def __init__(self, prop, module, fn, body, opts):
        self.prop, self.module, self.fn, self.body, self.opts = prop, module, fn, body, opts

    @property
    def name(self):
        return self.opts.get("name") or self.fn


SPECS = []


def spec(prop, module, fn, **opts):
    def deco(f):
        SPECS.append(Spec(prop, module, fn, f, opts))
        return f
    return deco


def dict_is(d, domfn, valfn=None):
    S = d.dom.e.sort().domain()
    k = z3.Const("qk", S)
    goal = [forall(k, z3.Select(d.dom.e, k) == domfn(k))]
    if valfn is not None:
        goal.append(forall(k, implies(z3.Select(d.dom.e, k), leaf_eq_nodes(sel(d.val, k), valfn(k)))))
    return z3.And(goal)


def ensure_each(p, name, k, goal):
    """obligation goal(k) for an arbitrary constant k, naming the elements at k of every container alive at the end
    (the equations define fresh names only: instantiation hints for the solver)"""
    from exec import Obligation
    hyps = list(p.st.facts)
    ks = k if isinstance(k, (list, tuple)) else [k]
    seen = set()
    for o, cells in p.st.mem.items():
        for off, n in cells.items():
            if not isinstance(n, (Vec, Dict)):
                continue
            arrs = [l.e for l in leaves(n) if z3.is_array(l.e)]
            for a in arrs:
                for kk in ks:
                    if a.sort().domain() == kk.sort() and (a.get_id(), kk.get_id()) not in seen:
                        seen.add((a.get_id(), kk.get_id()))
                        e = z3.Select(a, kk)
                        hyps.append(z3.Const(fresh_name("hint"), e.sort()) == e)
            if isinstance(n, Dict):
                _, ix, _, _ = smt.ordfns(n.dom.e.sort().domain())
                for kk in ks:
                    if kk.sort() == n.dom.e.sort().domain():
                        hyps.append(z3.Const(fresh_name("hint"), INT) == ix(n.dom.e, kk))
    p.vc.ex.obls.append(Obligation(p.vc.name + ":" + name, hyps, goal, p.vc.fn, "post"))
