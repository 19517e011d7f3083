"""C14: spanning trees and forests."""
import cxx
from speclib import *

MOD = "graph"
A_, B_, C_, ID_ = 0, 4, 8, 16


def edge(el, i):
    s = sel(el, i)
    return [s.d[o].e for o in (A_, B_, C_, ID_)]


@spec("C14", MOD, "edge_less")
def edge_less(v):
    x, y = v.pre
    a, b, c = ([n.d[o].e for n in (x, y)] for o in (A_, B_, C_))
    for p in v.run():
        p.ensure("ordered by cost, then ends", p.ret == z3.Or(c[0] < c[1], z3.And(c[0] == c[1], z3.Or(a[0] < a[1], z3.And(a[0] == a[1], b[0] < b[1])))))


@spec("C14", MOD, "edge_equal")
def edge_equal(v):
    x, y = v.pre
    for p in v.run():
        p.ensure("same cost and ends", p.ret == z3.And([x.d[o].e == y.d[o].e for o in (A_, B_, C_)]))


def endpoints(el, hi):
    """vertex predicate x -> x is an end of an edge below hi"""
    i = z3.Int("ei")
    return lambda x: z3.Exists([i], z3.And(rng(i, 0, hi), z3.Or(edge(el, i)[0] == x, edge(el, i)[1] == x)))


@spec("C14", MOD, "vertices")
def vertices(v):
    collects(v, v.pre[0], lambda p: p.ret)


@spec("C14", MOD, "make")
def make(v):
    def out(p):
        p.ensure("edges kept", node_eq(p.ret.d[0], v.pre[0]))
        return p.ret.d[24]
    collects(v, v.pre[0], out)


def collects(v, es, out):
    el, n = es.el, es.n.e
    # ghost: seen(i, x) = x is an end of one of the first i edges
    seen = z3.Function("seen", INT, INT, BOOL)
    i, x = z3.Ints("gi gx")
    v.requires(z3.ForAll([x], z3.Not(seen(0, x))))
    sg = z3.Function("seen_", INT, INT, BOOL)
    v.requires(z3.ForAll([x], z3.Not(sg(0, x))))
    v.requires(z3.ForAll([i, x], z3.And(seen(i, x) == sg(i, x), implies(i >= 1, seen(i, x) == z3.Or(sg(i - 1, x), edge(el, i - 1)[0] == x, edge(el, i - 1)[1] == x))),
                         patterns=[seen(i, x)]))

    def tt(ctx):
        return [("ends so far %s %s" % (n_, pn), lambda s, g=g, h=h: forall(K, z3.Select(g(s).dom.e, K) == seen(h(s).pos, K)))
                for n_, g in ctx.of(Dict) for pn, h in ctx.of(Iter)]
    v.template(tt)
    for p in v.run():
        d = out(p)
        p.ensure("exactly the ends of the edges", forall(K, z3.Select(d.dom.e, K) == seen(n, K)))


@spec("C14", MOD, "add")
def add(v):
    e, g = v.pre
    for p in v.run():
        o = p.out(1)
        n = g.d[0].n.e
        a, b = e.d[A_].e, e.d[B_].e
        p.ensure("one more edge", o.d[0].n.e == n + 1)
        p.ensure("the edge is appended", z3.And([x == y for x, y in zip(edge(o.d[0].el, n), [e.d[k].e for k in (A_, B_, C_, ID_)])]))
        p.ensure("earlier edges kept", forall(J, implies(rng(J, 0, n), node_eq(sel(o.d[0].el, J), sel(g.d[0].el, J)))))
        p.ensure("both ends become vertices", forall(K, z3.Select(o.d[24].dom.e, K) == z3.Or(z3.Select(g.d[24].dom.e, K), K == a, K == b)))


@spec("C14", MOD, "contains")
def contains(v):
    g = v.pre[0]
    for p in v.run():
        p.ensure("membership", p.ret == z3.Select(g.d[24].dom.e, v.a(1)))


def grec(v, name, sorts, base, step, sort=INT):
    """ghost function F(i, xs..) with F(0, xs) = base(xs), F(i, xs) = step(i-1, xs, F(i-1, .)); unfolded once per occurrence"""
    f = z3.Function(fresh_name(name), INT, *(sorts + [sort]))
    g = z3.Function(fresh_name(name + "_"), INT, *(sorts + [sort]))
    i = z3.Int("gi")
    xs = [z3.Const("gx%d" % k, s) for k, s in enumerate(sorts)]
    v.requires(z3.ForAll(xs, z3.And(f(0, *xs) == base(*xs), g(0, *xs) == base(*xs)), patterns=[f(0, *xs)]))
    v.requires(z3.ForAll([i] + xs, z3.And(f(i, *xs) == g(i, *xs), implies(i >= 1, f(i, *xs) == step(i - 1, g, *xs))), patterns=[f(i, *xs)]))
    f.limited = g
    return f


def where(v, name, cnt, pred):
    """inverse of a ghost count on the counted positions (surjectivity by induction, checked)"""
    k = z3.Function(fresh_name(name), INT, INT)
    c = cnt.limited
    i, j = z3.Ints("fi fj")
    v.requires(z3.ForAll([j], implies(z3.And(j >= 0, pred(j)), k(c(j)) == j), patterns=[c(j)]))
    v.requires(z3.ForAll([i, j], implies(z3.And(0 <= i, 0 <= j, i < c(j)), z3.And(0 <= k(i), k(i) < j, pred(k(i)), c(k(i)) == i)),
                         patterns=[z3.MultiPattern(k(i), c(j))]))
    h, K2, P = z3.Function(fresh_name("hL"), INT, INT), z3.Function(fresh_name("kL"), INT, INT), z3.Function(fresh_name("pL"), INT, BOOL)
    b = z3.Int("cb")
    Q = lambda y: z3.ForAll([i], implies(z3.And(0 <= i, i < h(y)), z3.And(0 <= K2(i), K2(i) < y, P(K2(i)), h(K2(i)) == i)), patterns=[K2(i)])
    st = [h(0) == 0, h(b + 1) == h(b) + z3.If(P(b), z3.IntVal(1), z3.IntVal(0)), b >= 0, implies(P(b), K2(h(b)) == b)]
    from exec import Obligation
    v.ex.obls.append(Obligation(v.name + ":ghost inverse of count (base)", st, Q(z3.IntVal(0)), "lemma", "lemma"))
    v.ex.obls.append(Obligation(v.name + ":ghost inverse of count (step)", st + [Q(b)], Q(b + 1), "lemma", "lemma"))
    return k


def connectivity(v, a, b, name="D"):
    """D(i, x, y): x and y are connected by the first i edges (a(j), b(j))"""
    return grec(v, name, [INT, INT], lambda x, y: x == y,
                lambda i, g, x, y: z3.Or(g(i, x, y), z3.And(g(i, x, a(i)), g(i, b(i), y)), z3.And(g(i, x, b(i)), g(i, a(i), y))), BOOL)


PRIV = "graph_private"
R_ES, R_DOM, R_V = 0, 24, 72          # sorted_graph_.edges, sorted_graph_.vertices, vertices_


def r_parts(n):
    if R_ES in n.d:
        if isinstance(n.d[R_ES], Struct):
            return n.d[R_ES].d[0], n.d[R_ES].d[24], n.d[R_V]
        return n.d[R_ES], n.d[R_DOM], n.d[R_V]


def vt(vec, j):
    s = sel(vec.el, j)
    return s.d[0].e, s.d[8].e


# ---- contracts of the private steps
def merge_post(V0, V1, old, new):
    v0, t0 = vt(V0, J)
    v1, t1 = vt(V1, J)
    return [V1.n.e == V0.n.e, forall(J, z3.And(v1 == v0, implies(rng(J, 0, V0.n.e), t1 == z3.If(t0 == old, new, t0))), [v1, t1, v0, t0])]


def merge_contract(c):
    from contracts_std import freshen
    p = c.args[0].add(R_V)
    V0 = c.ex.node_at(c.st, p)
    V1 = freshen(V0, "mrg")
    V1 = Vec(V0.n, V1.el, V0.ty)
    for f in merge_post(V0, V1, c.args[1], c.args[2]):
        c.st.assume(f)
    c.ex.write(c.st, p, V1)
    return [(c.st, None)]


@spec("C14", PRIV, "merge")
def merge(v):
    _, dom, V0 = r_parts(v.pre[0])
    old, new = v.a(1), v.a(2)

    def tt(ctx):
        out = []
        for vn, vg in ctx.of(Vec):
            E = vg(ctx.entry)
            for kn, kg in ctx.ints():
                if kn.endswith((".len", ".pos")):
                    continue
                out.append(("merged below %s" % kn, lambda s, vg=vg, kg=kg, E=E: forall(
                    J, z3.And(vt(vg(s), J)[0] == vt(E, J)[0], vt(vg(s), J)[1] == z3.If(z3.And(rng(J, 0, kg(s)), vt(E, J)[1] == old), new, vt(E, J)[1])),
                    list(vt(vg(s), J)) + list(vt(E, J)))))
        for pn, ph in ctx.of(Iter):
            for vn, vg in ctx.of(Vec):
                E = vg(ctx.entry)
                out.append(("merged before %s" % pn, lambda s, vg=vg, ph=ph, E=E: forall(
                    J, z3.And(vt(vg(s), J)[0] == vt(E, J)[0], vt(vg(s), J)[1] == z3.If(z3.And(rng(J, 0, ph(s).pos), vt(E, J)[1] == old), new, vt(E, J)[1])),
                    list(vt(vg(s), J)) + list(vt(E, J)))))
        return out
    v.template(tt)
    for p in v.run():
        es, d, V1 = r_parts(p.out(0))
        for nm, f in zip(("size", "labels"), merge_post(V0, V1, old, new)):
            p.ensure("every vertex of the old tree joins the new one: " + nm, f)
        p.ensure("graph untouched", z3.And(node_eq(es, r_parts(v.pre[0])[0]), node_eq(d, dom)))


def find_contract(dom):
    """requires: the vertices are listed in order of the set and x is one of them (so the search cannot fail)"""
    def h(c):
        ex, st = c.ex, c.st
        p = c.args[0].add(R_V)
        V = ex.node_at(st, p)
        x = ex.node_at(st, c.args[1]).e
        k = idx(dom, x)
        ex.oblige(st, "find_vertex_or_assert requires the vertex to be listed", z3.And(rng(k, 0, V.n.e), vt(V, k)[0] == x), "pre")
        r = z3.Int(fresh_name("fnd"))
        st.assume(z3.And(rng(r, 0, V.n.e), vt(V, r)[0] == x))
        return [(st, p.step("v", r))]
    return h


@spec("C14", PRIV, "find")
def find(v):
    _, dom, V = r_parts(v.pre[0])
    w = z3.Int("witness")
    x = v.a(1)
    v.requires(z3.And(rng(w, 0, V.n.e), vt(V, w)[0] == x))
    for p in v.run():
        e = z3.Int("e")
        p.ensure("finds the entry of the vertex", z3.Exists([e], z3.And(rng(e, 0, V.n.e), vt(V, e)[0] == x, p.ret == vt(V, e)[1])))
        p.ensure("nothing changes", node_eq(r_parts(p.out(0))[2], V))


def kruskal(v, es, dom):
    from contracts_std import sorted_struct
    n = es.n.e
    S, perm, inv = sorted_struct(es, z3.IntVal(0), n)
    return S, perm, inv


@spec("C14", PRIV, "init")
def init(v):
    g = v.pre[0]
    es, dom = g.d[0], g.d[24].dom.e
    n = es.n.e
    from contracts_std import sorted_struct
    S, perm, inv = sorted_struct(es, z3.IntVal(0), n)

    def tt(ctx):
        out = []
        for vn, vg in ctx.of(Vec):
            for pn, ph in ctx.of(Iter):
                out.append(("listed %s %s" % (vn, pn), lambda s, vg=vg, ph=ph: z3.And(vg(s).n.e == ph(s).pos, forall(
                    J, implies(rng(J, 0, ph(s).pos), z3.And(vt(vg(s), J)[0] == nth(dom, J), vt(vg(s), J)[1] == J)), list(vt(vg(s), J))))))
                for kn, kg in ctx.ints():
                    out.append(("numbered %s %s" % (kn, pn), lambda s, kg=kg, ph=ph: kg(s) == ph(s).pos))
        return out
    v.template(tt)
    for p in v.run():
        e1, d1, V1 = r_parts(p.ret)
        p.ensure("edges sorted by cost", z3.And(e1.n.e == n, forall(J, implies(rng(J, 0, n), z3.And([a == b for a, b in zip(edge(e1.el, J), edge(S, J))])), edge(e1.el, J)[0])))
        p.ensure("every vertex is its own tree", z3.And(V1.n.e == size(dom), forall(J, implies(rng(J, 0, size(dom)), z3.And(vt(V1, J)[0] == nth(dom, J), vt(V1, J)[1] == J)), list(vt(V1, J)))))


RUN = {"albatross::KruskalAlgoRunner::merge_trees": merge_contract}


@spec("C14", PRIV, "run", contracts=RUN)
def run(v):
    """the search over edges already sorted, every vertex its own tree"""
    es, dd, V0 = r_parts(v.pre[0])
    dom = dd.dom.e
    n = es.n.e
    v.ex.contracts["albatross::KruskalAlgoRunner::find_vertex_or_assert"] = find_contract(dom)
    i, q, x = z3.Ints("i q x")
    sa, sb = (lambda j: edge(es.el, j)[0]), (lambda j: edge(es.el, j)[1])
    v.requires(forall(i, implies(rng(i, 0, n), z3.And(z3.Select(dom, sa(i)), z3.Select(dom, sb(i)))), [sa(i), sb(i)]))
    v.requires(z3.And(V0.n.e == size(dom), forall(J, implies(rng(J, 0, size(dom)), z3.And(vt(V0, J)[0] == nth(dom, J), vt(V0, J)[1] == J)), list(vt(V0, J)))))
    saturate(v, dd)
    L = labels(v, dom, sa, sb)
    chosen = lambda p: L(p, sa(p)) != L(p, sb(p))
    c = count(v, "c", chosen)
    cg = c.limited
    seen = grec(v, "seen", [INT], lambda x: z3.BoolVal(False),
                lambda p, G, x: z3.If(chosen(p), z3.Or(G(p, x), sa(p) == x, sb(p) == x), G(p, x)), BOOL)

    def placed(o, hi):
        return z3.And(o.n.e == c(hi), forall(q, implies(z3.And(rng(q, 0, hi), chosen(q)), z3.And([a == b for a, b in zip(edge(o.el, cg(q)), edge(es.el, q))])),
                                             cg(q)))

    def tt(ctx):
        out = []
        for pn, ph in ctx.of(Iter):
            for vn, vg in ctx.of(Vec):
                if sorted(sel(vg(ctx.entry).el, J).d) == [0, 8]:
                    out.append(("vertices kept " + vn, lambda s, vg=vg: z3.And(vg(s).n.e == size(dom), forall(
                        J, implies(rng(J, 0, size(dom)), vt(vg(s), J)[0] == nth(dom, J)), list(vt(vg(s), J))))))
                    out.append(("labels %s %s" % (vn, pn), lambda s, vg=vg, ph=ph: forall(
                        J, implies(rng(J, 0, size(dom)), vt(vg(s), J)[1] == L(ph(s).pos, vt(vg(s), J)[0])), list(vt(vg(s), J)))))
                else:
                    out.append(("forest %s %s" % (vn, pn), lambda s, vg=vg, ph=ph: placed(vg(s), ph(s).pos)))
            for dn, dg in ctx.of(Dict):
                out.append(("forest vertices %s %s" % (dn, pn), lambda s, dg=dg, ph=ph: forall(K, z3.Select(dg(s).dom.e, K) == seen(ph(s).pos, K), z3.Select(dg(s).dom.e, K))))
        return out
    v.template(tt)
    for p in v.run():
        o = p.ret.d[0]
        p.ensure("the forest lists the joining edges in order of cost", placed(o, n))
        p.ensure("its vertices are the ends of its edges", forall(K, z3.Select(p.ret.d[24].dom.e, K) == seen(n, K), z3.Select(p.ret.d[24].dom.e, K)))


def labels(v, dom, sa, sb):
    """L(p, x): label of x's tree after the first p edges"""
    return grec(v, "L", [INT], lambda x: idx(dom, x),
                lambda p, G, x: z3.If(z3.And(G(p, sa(p)) != G(p, sb(p)), G(p, x) == G(p, sa(p))), G(p, sb(p)), G(p, x)))


# ---- the certificate: what the list of joining edges guarantees
@spec("C14", PRIV, None, name="forest_certificate")
def forest_certificate(v):
    """lemmas over the contract of run(): acyclic, spanning, and every graph edge bridged by no costlier forest edges"""
    A, B = (z3.Function(n, INT, INT) for n in ("sa", "sb"))
    cost = z3.Function("cost", INT, REAL)
    OA, OB = (z3.Function(n, INT, INT) for n in ("oa", "ob"))
    dom = z3.Const("V", z3.ArraySort(INT, BOOL))
    n, p, x, y, q, i = z3.Ints("n p x y q i")
    V = lambda t: z3.Select(dom, t)
    L = z3.Function("L", INT, INT, INT)
    D = z3.Function("D", INT, INT, INT, BOOL)          # connected by the first i forest edges
    DG = z3.Function("DG", INT, INT, INT, BOOL)        # connected by the first i graph edges
    ix = z3.Function("ix", INT, INT)
    c, k = z3.Function("c", INT, INT), z3.Function("k", INT, INT)
    join = lambda f, m, a, b, x, y: z3.Or(f(m, x, y), z3.And(f(m, x, a), f(m, b, y)), z3.And(f(m, x, b), f(m, a, y)))
    chosen = lambda p: L(p, A(p)) != L(p, B(p))
    base = [z3.ForAll([x], L(0, x) == ix(x)), z3.ForAll([x, y], implies(z3.And(V(x), V(y), ix(x) == ix(y)), x == y)),
            z3.ForAll([x, y], z3.And(D(0, x, y) == (x == y), DG(0, x, y) == (x == y))), c(0) == 0]
    stepL = lambda p: z3.ForAll([x], L(p + 1, x) == z3.If(z3.And(chosen(p), L(p, x) == L(p, A(p))), L(p, B(p)), L(p, x)))
    stepc = lambda p: c(p + 1) == c(p) + z3.If(chosen(p), z3.IntVal(1), z3.IntVal(0))
    stepD = lambda m: z3.ForAll([x, y], D(m + 1, x, y) == join(D, m, OA(m), OB(m), x, y))
    stepG = lambda m: z3.ForAll([x, y], DG(m + 1, x, y) == join(DG, m, A(m), B(m), x, y))
    inv = lambda p: z3.ForAll([x, y], implies(z3.And(V(x), V(y)), z3.And(D(c(p), x, y) == (L(p, x) == L(p, y)), DG(p, x, y) == (L(p, x) == L(p, y)))))
    ends = lambda p: z3.And(V(A(p)), V(B(p)))
    placed = lambda p: implies(chosen(p), z3.And(OA(c(p)) == A(p), OB(c(p)) == B(p)))
    v.ensure("connected means same tree (no edges yet)", base, inv(z3.IntVal(0)))
    st = [stepL(p), stepc(p), stepD(c(p)), stepG(p), ends(p), placed(p)]
    v.ensure("connected means same tree (one more edge)", st + [inv(p)], inv(p + 1))
    v.ensure("no chosen edge closes a cycle", [inv(q), chosen(q), ends(q), placed(q)], z3.Not(D(c(q), OA(c(q)), OB(c(q)))))
    v.ensure("the ends of every examined edge are connected by the edges chosen so far", [inv(q + 1), stepL(q), ends(q)], D(c(q + 1), A(q), B(q)))
    # the position of the i-th chosen edge: edges chosen while examining 0..q are no costlier than edge q
    v.ensure("the edges connecting them are no costlier", [0 <= i, i < c(q + 1), implies(i < c(q + 1), z3.And(0 <= k(i), k(i) < q + 1)),
                                                           z3.ForAll([x, y], implies(z3.And(0 <= x, x <= y, y < n), cost(x) <= cost(y))), q < n], cost(k(i)) <= cost(q))
    v.ensure("the forest connects exactly what the graph connects", [inv(n), V(x), V(y)], D(c(n), x, y) == DG(n, x, y))


def forest_fns(es):
    ls = [l.e for l in leaves(es.el)]
    so = [t.sort() for t in ls] + [INT]
    sg = "_".join(str(t) for t in so)
    f = lambda nm, out: smt.uf("msf_%s:%s" % (nm, sg), *(so + [out]))(*(ls + [es.n.e]))
    return f


def forest_contract(c):
    """minimum_spanning_forest as a function of the graph (which function: min_forest below)"""
    ex, st = c.ex, c.st
    g = c.args[0]
    es = ex.node_at(st, g)
    f = forest_fns(es)
    dd = ex.node_at(st, g.add(24)).dom
    n = iter(range(100))
    el = tmap(lambda l: Leaf(l.kind, f("el%d" % next(n), l.e.sort()), l.ks), es.el)
    m = f("n", INT)
    st.assume(z3.And(m >= 0, m <= 2 ** 40))
    out = Ptr(ex.new_obj(st, "forest")) if c.sret is None else c.sret
    ex.write(st, out, Vec(Leaf("i64", m), el, es.ty))
    d0 = ex.node_at(st, g.add(24))
    ex.write(st, out.add(24), Dict(Leaf(dd.kind, f("dom", dd.e.sort()), dd.ks), d0.val, d0.kkind, d0.voff, d0.ty))
    return [(st, None)]


def negated(v, callee):
    """the same search on the graph with negated costs, its costs negated back"""
    g = v.pre[0]
    es = g.d[0]
    neg = Vec(es.n, Struct({o: (Leaf(l.kind, z3.Lambda([J], -z3.Select(l.e, J)), l.ks) if o == C_ else l) for o, l in es.el.d.items()}, es.el.ty), es.ty)
    calls = []

    def h(c):
        ex, st = c.ex, c.st
        got = ex.node_at(st, c.args[0])
        dd = ex.node_at(st, c.args[0].add(24))
        ex.oblige(st, "searched graph has the same edges with negated costs", z3.And(got.n.e == es.n.e, forall(J, implies(
            rng(J, 0, es.n.e), z3.And([a == (-b if o == C_ else b) for o, a, b in zip((A_, B_, C_, ID_), edge(got.el, J), edge(es.el, J))])), edge(got.el, J)[2])), "pre")
        ex.oblige(st, "searched graph has the same vertices", dd.dom.e == g.d[24].dom.e, "pre")
        r = forest_contract(c)
        calls.append(([l.e for l in leaves(ex.node_at(st, c.sret).el)], ex.node_at(st, c.sret), ex.node_at(st, c.sret.add(24))))
        return r
    v.ex.contracts[callee] = h

    def tt(ctx):
        out = []
        for vn, vg in ctx.of(Vec):
            E = vg(ctx.entry)
            for pn, ph in ctx.of(Iter):
                out.append(("negated before %s" % pn, lambda s, vg=vg, ph=ph, E=E: forall(J, implies(rng(J, 0, E.n.e), z3.And(
                    [a == (z3.If(J < ph(s).pos, -b, b) if o == C_ else b) for o, a, b in zip((A_, B_, C_, ID_), edge(vg(s).el, J), edge(E.el, J))])), edge(vg(s).el, J))))
        return out
    v.template(tt)
    for p in v.run():
        o = p.ret.d[0]
        if not calls:
            raise Unsupported("no search")
        _, F, FD = calls[-1]
        p.ensure("result is the found forest with costs negated back", z3.And(o.n.e == F.n.e, forall(J, implies(rng(J, 0, F.n.e), z3.And(
            [a == (-b if k == C_ else b) for k, a, b in zip((A_, B_, C_, ID_), edge(o.el, J), edge(F.el, J))])), edge(o.el, J))))
        p.ensure("with the found vertices", p.ret.d[24].dom.e == FD.dom.e)


@spec("C14", MOD, "max_forest")
def max_forest(v):
    negated(v, "albatross::minimum_spanning_forest")


@spec("C14", MOD, "min_tree")
def min_tree(v):
    negated(v, "albatross::maximum_spanning_tree")


@spec("C14", MOD, "min_forest")
def min_forest(v):
    """composes the contracts of the private steps: sorted edges, then the search"""
    from contracts_std import sorted_struct, freshen
    g = v.pre[0]
    es, dd = g.d[0], g.d[24]
    dom, n = dd.dom.e, es.n.e
    S, perm, inv = sorted_struct(es, z3.IntVal(0), n)
    i, q = z3.Ints("i q")
    v.requires(forall(i, implies(rng(i, 0, n), z3.And(z3.Select(dom, edge(es.el, i)[0]), z3.Select(dom, edge(es.el, i)[1]))), edge(es.el, i)[:2]))
    saturate(v, dd)
    sa, sb = (lambda j: edge(S, j)[0]), (lambda j: edge(S, j)[1])
    L = labels(v, dom, sa, sb)
    chosen = lambda p: L(p, sa(p)) != L(p, sb(p))
    c = count(v, "c", chosen)
    cg = c.limited

    def init_c(c):
        """contract of the constructor (spec init)"""
        ex, st = c.ex, c.st
        G = ex.node_at(st, c.args[1])
        GD = ex.node_at(st, c.args[1].add(24))
        ex.oblige(st, "search runs on the given graph", z3.And(node_eq(G, es), GD.dom.e == dom), "pre")
        th = c.args[0]
        ex.write(st, th, Vec(es.n, S, es.ty))
        ex.write(st, th.add(24), dd)
        for f in permutation_facts(es, S, perm, inv):
            st.assume(f)
        V1 = ex.fresh(st, cxx.parse_type("std::vector<albatross::KruskalAlgoRunner<int>::VertexWithTreeID, std::allocator<albatross::KruskalAlgoRunner<int>::VertexWithTreeID>>"), "vts")
        st.assume(z3.And(V1.n.e == size(dom), forall(J, implies(rng(J, 0, size(dom)), z3.And(vt(V1, J)[0] == nth(dom, J), vt(V1, J)[1] == J)), list(vt(V1, J)))))
        ex.write(st, th.add(R_V), V1)
        return [(st, None)]

    def run_c(c):
        """contract of run (spec run)"""
        ex, st = c.ex, c.st
        th = c.args[0] if c.sret is None or c.args[0].obj != c.sret.obj else c.args[1]
        E, V0 = ex.node_at(st, th), ex.node_at(st, th.add(R_V))
        GD = ex.node_at(st, th.add(24))
        ex.oblige(st, "run requires edges whose ends are vertices", forall(i, implies(rng(i, 0, E.n.e), z3.And(
            z3.Select(GD.dom.e, edge(E.el, i)[0]), z3.Select(GD.dom.e, edge(E.el, i)[1]))), edge(E.el, i)[:2]), "pre")
        ex.oblige(st, "run requires every vertex to be its own tree", z3.And(V0.n.e == size(GD.dom.e), forall(J, implies(
            rng(J, 0, size(GD.dom.e)), z3.And(vt(V0, J)[0] == nth(GD.dom.e, J), vt(V0, J)[1] == J)), list(vt(V0, J)))), "pre")
        ex.oblige(st, "run searches the sorted edges", z3.And(E.n.e == n, forall(J, implies(rng(J, 0, n), z3.And([a == b for a, b in zip(edge(E.el, J), edge(S, J))])), edge(E.el, J)[:2])), "pre")
        o = freshen(Vec(es.n, es.el, es.ty), "fo")
        st.assume(z3.And(o.n.e == c_(n), o.n.e >= 0, o.n.e <= n))
        st.assume(forall(q, implies(z3.And(rng(q, 0, n), chosen(q)), z3.And([a == b for a, b in zip(edge(o.el, cg(q)), edge(S, q))])), cg(q)))
        ex.write(st, c.sret, o)
        ex.write(st, c.sret.add(24), freshen(dd, "fv"))
        return [(st, None)]
    c_ = c
    v.ex.contracts["albatross::KruskalAlgoRunner::KruskalAlgoRunner"] = init_c
    v.ex.contracts["albatross::KruskalAlgoRunner::run"] = run_c
    for p in v.run():
        o = p.ret.d[0]
        p.ensure("the forest lists the joining edges in order of cost", z3.And(o.n.e == c(n), forall(q, implies(z3.And(rng(q, 0, n), chosen(q)), z3.And(
            [a == b for a, b in zip(edge(o.el, cg(q)), edge(S, q))])), cg(q))))


def permutation_facts(es, S, perm, inv):
    n = es.n.e
    i = z3.Int("ri")
    N, O = edge(S, i), edge(es.el, i)
    Op, Ni = edge(es.el, perm(i)), edge(S, inv(i))
    out = []
    for a, o, op, ni in zip(N, O, Op, Ni):
        out.append(z3.ForAll([i], implies(rng(i, 0, n), z3.And(rng(perm(i), 0, n), a == op, inv(perm(i)) == i)), patterns=[a]))
        out.append(z3.ForAll([i], implies(rng(i, 0, n), z3.And(rng(inv(i), 0, n), o == ni, perm(inv(i)) == i)), patterns=[o]))
    return out
